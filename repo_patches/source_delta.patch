From e542ebf516c9897b4b0aba747bae75aa0c5483cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 01/39] fix: keep the lower bound of an investment flow whose
 minimum is zero in some time step

min() of the normed minimum was used to decide whether the constraint is
needed at all, so a profile like [0, 0.5] was ignored entirely.
---
 src/oemof/solph/flows/_investment_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 51f5ef9..9f1cd41 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -144,7 +144,11 @@ class InvestmentFlowBlock(ScalarBlock):
         )
 
         self.MIN_INVESTFLOWS = Set(
-            initialize=[(g[0], g[1]) for g in group if g[2].minimum.min() != 0]
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].minimum.min() != 0 or g[2].minimum.max() != 0
+            ]
         )
 
         self.EXISTING_INVESTFLOWS = Set(
-- 
2.43.0


From 2646f1e2797bb3a4a4738b24f2f0da316c66def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 02/39] fix: weight full load times of investment flows with
 typical periods

With aggregated typical periods every step represents several original
ones. The limits of flows without investment consider this, the ones of
investment flows did not.
---
 src/oemof/solph/flows/_investment_flow_block.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 9f1cd41..0ddf074 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -681,7 +681,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) <= (
                 m.flows[i, o].full_load_time_max
                 * sum(self.total[i, o, p] for p in m.PERIODS)
@@ -698,7 +699,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) >= (
                 sum(self.total[i, o, p] for p in m.PERIODS)
                 * m.flows[i, o].full_load_time_min
-- 
2.43.0


From 74b1b5a9543333384eece11d9b94f326cac6f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 03/39] fix: respect minimum up and down times from the first
 flexible time step on

A switch in the first step the status is free to change in was not
followed by the minimum up or down time, e.g. NonConvex(minimum_uptime=3)
could be on in the first step only.
---
 src/oemof/solph/flows/_shared.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 6713750..75f377b 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -189,6 +189,21 @@ def variables_for_non_convex_flows(block):
         )
 
 
+def _previous_status(block, i, o, t):
+    """Status before time step t, the initial status for the first one.
+
+    If no initial status is given, there is no switch in the first step.
+    """
+    m = block.parent_block()
+    initial_status = m.flows[i, o].nonconvex.initial_status
+
+    if t > m.TIMESTEPS.at(1):
+        return block.status[i, o, t - 1]
+    if initial_status is None:
+        return block.status[i, o, t]
+    return initial_status
+
+
 def _min_downtime_constraint(block):
     r"""
     .. math::
@@ -215,7 +230,7 @@ def _min_downtime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
@@ -223,7 +238,7 @@ def _min_downtime_constraint(block):
 
             expr = 0
             expr += (
-                block.status[i, o, t - 1] - block.status[i, o, t]
+                _previous_status(block, i, o, t) - block.status[i, o, t]
             ) * m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += -m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += sum(
@@ -269,14 +284,14 @@ def _min_uptime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
             # so testing is easier then just calling the rule for valid t.
             expr = 0
             expr += (
-                block.status[i, o, t] - block.status[i, o, t - 1]
+                block.status[i, o, t] - _previous_status(block, i, o, t)
             ) * m.flows[i, o].nonconvex.minimum_uptime[t]
             expr += -sum(
                 block.status[i, o, u]
-- 
2.43.0


From 1771be513d58897ee115e09756907163944c2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 04/39] fix: weight start-up costs with typical periods

Shut-down, activity and inactivity costs count as often as the typical
period represents an original one, start-up costs were counted once.
---
 src/oemof/solph/flows/_shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 75f377b..c244cb6 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -584,6 +584,7 @@ def startup_costs(block):
                 startup_costs += sum(
                     block.startup[i, o, t]
                     * m.flows[i, o].nonconvex.startup_costs[t]
+                    * m.tsam_weighting[t]
                     for t in m.TIMESTEPS
                 )
 
-- 
2.43.0


From 33db92d38be645f98fd8be0dae67d0265f883f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 05/39] fix: apply the minimum flue gas losses of generic CHPs

---
 src/oemof/solph/components/_generic_chp.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 572b200..7bc9bca 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -492,8 +492,11 @@ class GenericCHPBlock(ScalarBlock):
         def _H_L_FG_min_rule(block, n, t):
             """Set min. flue gas loss as fuel flow share."""
             # minimum flue gas losses e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += -self.H_L_FG_min[n, t]
@@ -514,13 +517,19 @@ class GenericCHPBlock(ScalarBlock):
         def _Q_min_res_rule(block, n, t):
             """Set minimum Q depending on fuel and eletrical flow."""
             # minimum restriction for heat flows e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += self.P[n, t] + self.Q[n, t] + self.H_L_FG_min[n, t]
                 expr += (
-                    list(n.heat_output.values())[0].Q_CW_min[t] * self.Y[n, t]
+                    list(n.heat_output.values())[0].custom_properties[
+                        "Q_CW_min"
+                    ][t]
+                    * self.Y[n, t]
                 )
                 expr += -self.H_F[n, t]
                 return expr >= 0
-- 
2.43.0


From ba0aae60824f1dc3a36ee509b39baa6b42f570ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 06/39] fix: self-discharge of storages over typical periods

The content carried over between typical periods decays with the duration
of the steps that have passed, as the content within a typical period does.
With time steps other than one hour, or with segments of different length,
the level limits and the inter-period balance used other durations.
---
 .../solph/components/_generic_storage.py      | 40 +++++++++----------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index fa9b6f1..67f1ec1 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -428,6 +428,15 @@ class GenericStorage(Node):
             return GenericStorageBlock
 
 
+def _retained_share(m, n, p, k, g):
+    """Share of the energy content at the beginning of typical period k that
+    is still stored when its g-th time step starts (self-discharge only)."""
+    t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
+    return math.prod(
+        (1 - n.loss_rate[t]) ** m.timeincrement[t] for t in range(t0, t0 + g)
+    )
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -655,7 +664,6 @@ class GenericStorageBlock(ScalarBlock):
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -665,7 +673,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     rhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _retained_share(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     self.storage_inter_minimum_level.add(
@@ -686,7 +694,6 @@ class GenericStorageBlock(ScalarBlock):
                 for p, i, g in m.TIMEINDEX_CLUSTER:
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -696,7 +703,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     lhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _retained_share(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     rhs = n.nominal_storage_capacity * n.max_storage_level[t]
@@ -799,15 +806,8 @@ class GenericStorageBlock(ScalarBlock):
             k = m.es.tsa_parameters[p]["order"][ii]
 
             # Calculate inter losses over whole typical period
-            t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
-            losses = math.prod(
-                (
-                    (1 - n.loss_rate[t0 + s])
-                    ** m.es.tsa_parameters[p]["segments"][(k, s)]
-                    if "segments" in m.es.tsa_parameters[p]
-                    else 1 - n.loss_rate[t0 + s]
-                )
-                for s in range(m.es.tsa_parameters[p]["timesteps"])
+            losses = _retained_share(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
 
             expr = 0
@@ -1918,14 +1918,12 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     break
 
             k = m.es.tsa_parameters[p]["order"][ii]
-            t = m.get_timestep_from_tsam_timestep(
-                p, k, m.es.tsa_parameters[p]["timesteps"] - 1
+            losses = _retained_share(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
             expr = 0
             expr += block.inter_storage_content[n, i + 1]
-            expr += -block.inter_storage_content[n, i] * (
-                1 - n.loss_rate[t]
-            ) ** (m.timeincrement[t] * m.es.tsa_parameters[p]["timesteps"])
+            expr += -block.inter_storage_content[n, i] * losses
             expr += -self.intra_storage_delta[
                 n, p, k, m.es.tsa_parameters[p]["timesteps"]
             ]
@@ -2170,7 +2168,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     for p, i, g in m.TIMEINDEX_CLUSTER:
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2180,7 +2177,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         lhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _retained_share(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         rhs = self.total[n, p] * n.max_storage_level[t]
@@ -2205,7 +2202,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2215,7 +2211,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         rhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _retained_share(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         self.storage_inter_minimum_level.add(
-- 
2.43.0


From ceb86d08780d109f3632a20796499cea3cf41465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 07/39] fix: initial level of investment storages with typical
 periods

The rules for the initial content constrained the intra-period difference at
the beginning of the first typical period, which is always zero. A given
initial level therefore forced the capacity to zero (or made the model
infeasible). They constrain the content at the beginning of the horizon now.
---
 src/oemof/solph/components/_generic_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 67f1ec1..975c266 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1817,7 +1817,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs <= n.investment.existing + block.invest[n, 0]
 
             self.init_content_limit = Constraint(
@@ -1830,7 +1830,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs == n.initial_storage_level * (
                     n.investment.existing + block.invest[n, 0]
                 )
-- 
2.43.0


From b5dafa5a1f56f0bb709ea210e88ccd8cab5dcc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 08/39] fix: minimum level of investment storages at the last
 time point

The lower bound of the content was skipped if the minimum level was zero
for all time steps, although it may be positive at the final time point.
---
 src/oemof/solph/components/_generic_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 975c266..c09b85e 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1516,7 +1516,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
             initialize=[
                 n
                 for n in group
-                if sum([n.min_storage_level[t] for t in m.TIMESTEPS]) > 0
+                if n.min_storage_level.max() > 0
             ]
         )
 
-- 
2.43.0


From e872144f9d53b6703f3d3b7fd2b014021728719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 09/39] fix: time steps of periods with different numbers of
 typical time steps

The offset of a period was computed from its own number of time steps
instead of the number of time steps before it.
---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 093eaeb..b394cb1 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -516,7 +516,7 @@ class Model(po.ConcreteModel):
     def get_timestep_from_tsam_timestep(self, p, ik, g):
         """Return original timestep from cluster-based timestep"""
         t = (
-            p * len(self.TIMESTEPS_IN_PERIOD[p])
+            sum(len(self.TIMESTEPS_IN_PERIOD[ip]) for ip in range(p))
             + ik * self.es.tsa_parameters[p]["timesteps"]
             + g
         )
-- 
2.43.0


From 3522fe5c2f40283b7a686d83caa3f81cc0c5718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 10/39] fix: limit the costs of all investments, whichever
 kinds of them are in the model

---
 .../solph/constraints/investment_limit.py     | 47 ++++++++-----------
 .../flows/_invest_non_convex_flow_block.py    |  9 +++-
 2 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index bbf5e83..0415622 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -17,6 +17,15 @@ from pyomo import environ as po
 
 from oemof.solph._plumbing import sequence
 
+_INVESTMENT_BLOCKS = (
+    "InvestmentFlowBlock",
+    "InvestNonConvexFlowBlock",
+    "GenericInvestmentStorageBlock",
+    "SinkDSMOemofInvestmentBlock",
+    "SinkDSMDIWInvestmentBlock",
+    "SinkDSMDLRInvestmentBlock",
+)
+
 
 def investment_limit(model, limit=None):
     r"""Set an absolute limit for the total investment costs of an investment
@@ -35,20 +44,11 @@ def investment_limit(model, limit=None):
     def investment_rule(m):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
-            expr += m.InvestmentFlowBlock.investment_costs
-
-        if hasattr(m, "GenericInvestmentStorageBlock"):
-            expr += m.GenericInvestmentStorageBlock.investment_costs
-
-        if hasattr(m, "SinkDSMOemofInvestmentBlock"):
-            expr += m.SinkDSMOemofInvestmentBlock.investment_costs
-
-        if hasattr(m, "SinkDSMDIWInvestmentBlock"):
-            expr += m.SinkDSMDIWInvestmentBlock.investment_costs
-
-        if hasattr(m, "SinkDSMDLRInvestmentBlock"):
-            expr += m.SinkDSMDLRInvestmentBlock.investment_costs
+        for block_name in _INVESTMENT_BLOCKS:
+            # blocks without any object do not define costs
+            expr += getattr(
+                getattr(m, block_name, None), "investment_costs", 0
+            )
 
         return expr <= limit
 
@@ -96,20 +96,11 @@ def investment_limit_per_period(model, limit=None):
     def investment_period_rule(m, p):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
-            expr += m.InvestmentFlowBlock.period_investment_costs[p]
-
-        if hasattr(m, "GenericInvestmentStorageBlock"):
-            expr += m.GenericInvestmentStorageBlock.period_investment_costs[p]
-
-        if hasattr(m, "SinkDSMOemofInvestmentBlock"):
-            expr += m.SinkDSMOemofInvestmentBlock.period_investment_costs[p]
-
-        if hasattr(m, "SinkDSMDIWInvestmentBlock"):
-            expr += m.SinkDSMDIWInvestmentBlock.period_investment_costs[p]
-
-        if hasattr(m, "SinkDSMDLRInvestmentBlock"):
-            expr += m.SinkDSMDLRInvestmentBlock.period_investment_costs[p]
+        for block_name in _INVESTMENT_BLOCKS:
+            block = getattr(m, block_name, None)
+            # blocks without any object do not define costs
+            if hasattr(block, "period_investment_costs"):
+                expr += block.period_investment_costs[p]
 
         return expr <= limit[p]
 
diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 9d04efb..41f6ca9 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -311,22 +311,27 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         activity_costs = _shared.activity_costs(self)
         inactivity_costs = _shared.inactivity_costs(self)
         investment_costs = 0
+        period_investment_costs = {p: 0 for p in m.PERIODS}
 
         for i, o in self.LINEAR_INVEST_NON_CONVEX_FLOWS:
             for p in m.PERIODS:
-                investment_costs += (
+                period_investment_costs[p] += (
                     self.invest[i, o, p] * m.flows[i, o].investment.ep_costs[p]
                 )
 
         for i, o in self.OFFSET_INVEST_NON_CONVEX_FLOWS:
             for p in m.PERIODS:
-                investment_costs += (
+                period_investment_costs[p] += (
                     self.invest[i, o, p] * m.flows[i, o].investment.ep_costs[p]
                     + m.flows[i, o].investment.offset[p]
                     * self.invest_status[i, o, p]
                 )
 
+        for p in m.PERIODS:
+            investment_costs += period_investment_costs[p]
+
         self.investment_costs = Expression(expr=investment_costs)
+        self.period_investment_costs = period_investment_costs
 
         return (
             startup_costs
-- 
2.43.0


From 76c59ec930453d3abad934dfa7029fb87ecb2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 11/39] fix: limit of additional investment properties with
 untagged and switchable investments

---
 src/oemof/solph/constraints/investment_limit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index 0415622..4971747 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -195,10 +195,16 @@ def additional_investment_flow_limit(model, keyword, limit=None):
     for i, o in model.flows:
         if (
             model.flows[i, o].investment is not None
+            and model.flows[i, o].investment.custom_properties is not None
             and keyword in model.flows[i, o].investment.custom_properties
         ):
             investments[(i, o)] = model.flows[i, o].investment
 
+    def _invest(i, o, p):
+        if model.flows[i, o].nonconvex is None:
+            return model.InvestmentFlowBlock.invest[i, o, p]
+        return model.InvestNonConvexFlowBlock.invest[i, o, p]
+
     limit_name = "invest_limit_" + keyword
 
     setattr(
@@ -206,7 +212,7 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         limit_name,
         po.Expression(
             expr=sum(
-                model.InvestmentFlowBlock.invest[i, o, p]
+                _invest(i, o, p)
                 * investments[i, o].custom_properties[keyword]
                 for (i, o) in investments
                 for p in model.PERIODS
-- 
2.43.0


From 00cd8c279aecb6f9729a73d7ed00e505b7a9cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 12/39] fix: weight integral limits with typical periods

---
 src/oemof/solph/constraints/integral_limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 679e17a..3f2b30d 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -165,6 +165,7 @@ def generic_integral_limit(
             expr=sum(
                 om.flow[i, o, t]
                 * om.timeincrement[t]
+                * om.tsam_weighting[t]
                 * sequence(flows[i, o].custom_properties[keyword])[t]
                 for (i, o) in flows
                 for t in om.TIMESTEPS
@@ -251,6 +252,7 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
         expr = sum(
             om.flow[i, o, t]
             * om.timeincrement[t]
+            * om.tsam_weighting[t]
             * sequence(flows[i, o].custom_properties[keyword])[t]
             for (i, o) in flows
             for t in m.TIMESTEPS_IN_PERIOD[p]
-- 
2.43.0


From decab3204bf038b3d4a9412fced0a1c51acf4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 13/39] fix: accept series with more than 256 values in
 sequence(..., length=n)

---
 src/oemof/solph/_plumbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 4459b31..908639a 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -60,10 +60,10 @@ def sequence(iterable_or_scalar, length=None):
     if iterable_or_scalar is None:
         return None
     if isinstance(iterable_or_scalar, abc.Iterable):
-        if length and length is not len(iterable_or_scalar):
+        if length and length != len(iterable_or_scalar):
             raise ValueError(
                 f"Length mismatch: Cannot create sequence of length {length}"
-                + " from input {iterable_or_scalar}."
+                + f" from input {iterable_or_scalar}."
             )
         else:
             if isinstance(iterable_or_scalar, str):
-- 
2.43.0


From 7469e8078e78bfe1d6112418e599227a1996a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 14/39] fix: constant sequences keep their length when combined
 with numpy numbers

---
 src/oemof/solph/_plumbing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 908639a..267a02a 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -131,6 +131,10 @@ class _FakeSequence:
     42
     """
 
+    # numpy scalars and arrays have to use the operators defined below
+    # instead of treating this object as a (possibly empty) list
+    __array_ufunc__ = None
+
     def __init__(self, value, length=None):
         self._value = value
         self._length = length
@@ -189,7 +193,7 @@ class _FakeSequence:
     __rmul__ = __mul__
 
     def __truediv__(self, other):
-        return 1 / other * self
+        return self * (1 / other)
 
     @property
     def value(self):
-- 
2.43.0


From b4cd945d0387a9bcb72729e62bd8103da96e19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 15/39] fix: check every step of maximum, minimum and offset in
 Flow and Investment

---
 src/oemof/solph/_options.py    |  6 ++++--
 src/oemof/solph/flows/_flow.py | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index aebd550..858dd5e 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -151,7 +151,7 @@ class Investment:
 
     def _check_invest_attributes_maximum(self):
         """Throw an error if maximum is infinite and nonconvex is True"""
-        if (self.maximum[0] == float("+inf")) and (self.nonconvex is True):
+        if (self.maximum.max() == float("+inf")) and (self.nonconvex is True):
             e2 = (
                 "Please provide a maximum investment value in case of"
                 " nonconvex investment (nonconvex=True), which is in the"
@@ -164,7 +164,9 @@ class Investment:
 
     def _check_invest_attributes_offset(self):
         """Throw an error if offset is given without nonconvex=True"""
-        if (self.offset[0] != 0) and (self.nonconvex is False):
+        if (self.offset.min() != 0 or self.offset.max() != 0) and (
+            self.nonconvex is False
+        ):
             e3 = (
                 "If `nonconvex` is `False`, the `offset` parameter will be"
                 " ignored."
diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index a293666..055ccbc 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -326,18 +326,22 @@ class Flow(Edge):
         }
         if self.investment is None and self.nominal_capacity is None:
             for attr in need_nominal_capacity:
+                default = need_nominal_capacity_defaults[attr]
                 if isinstance(getattr(self, attr), Iterable):
-                    the_attr = getattr(self, attr)[0]
-                else:
                     the_attr = getattr(self, attr)
-                if the_attr != need_nominal_capacity_defaults[attr]:
+                    is_default = default is not None and (
+                        the_attr.min() == the_attr.max() == default
+                    )
+                else:
+                    is_default = getattr(self, attr) == default
+                if not is_default:
                     raise AttributeError(
                         f"If {attr} is set in a flow, "
                         "nominal_capacity must be set as well."
                     )
 
         if self.nominal_capacity is not None and not math.isfinite(
-            self.maximum[0]
+            self.maximum.max()
         ):
             raise ValueError(infinite_error_msg.format("maximum"))
 
-- 
2.43.0


From 31bca4fdc12aeebcaf7bf2eed30bef99eaac8ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 16/39] fix: check the time increment of aggregated energy
 systems

---
 src/oemof/solph/_energy_system.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 46399d7..f040e5f 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -172,13 +172,6 @@ class EnergySystem(es.EnergySystem):
                     drop=True
                 )
 
-        if timeincrement is not None and (pd.Series(timeincrement) <= 0).any():
-            msg = (
-                "The time increment is inconsistent. Negative values and zero "
-                "are not allowed.\nThis is caused by a inconsistent "
-                "timeincrement parameter or an incorrect timeindex."
-            )
-            raise TypeError(msg)
         if tsa_parameters is not None:
             msg = (
                 "CAUTION! You specified the 'tsa_parameters' attribute for "
@@ -221,6 +214,13 @@ class EnergySystem(es.EnergySystem):
         timeincrement = self._init_timeincrement(
             timeincrement, timeindex, periods, tsa_parameters
         )
+        if timeincrement is not None and (pd.Series(timeincrement) <= 0).any():
+            msg = (
+                "The time increment is inconsistent. Negative values and zero "
+                "are not allowed.\nThis is caused by a inconsistent "
+                "timeincrement parameter or an incorrect timeindex."
+            )
+            raise TypeError(msg)
         super().__init__(
             groupings=groupings,
         )
-- 
2.43.0


From 135685af48220916f3bda0f6f9fc48d6648f929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 17/39] fix: provide time-dependent results of multi-period
 models

---
 src/oemof/solph/_results.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index efb7309..3590ae0 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -151,10 +151,12 @@ class Results:
             # overwrite known indexes
             index_type = tuple(dataset.index_set().subsets())[-1].name
             match index_type:
-                case "TIMEPOINTS":
+                case "TIMEPOINTS" if len(rv) == len(self._model.es.timeindex):
                     rv.index = self._model.es.timeindex
                 case "TIMESTEPS":
-                    rv.index = self._model.es.timeindex[:-1]
+                    # The time index of multi-period models has
+                    # one item per time step.
+                    rv.index = self._model.es.timeindex[: len(rv)]
                 case _:
                     rv.index = rv.index.get_level_values(-1)
         else:
-- 
2.43.0


From b3279331fd1d9218d8f4c58a90e1d286766c27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 18/39] fix: variable costs in results of flows without
 variable costs

---
 src/oemof/solph/_results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 3590ae0..fa7c6fc 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -274,6 +274,8 @@ class Results:
         for i, o in self._model.FLOWS:
             # access the variable costs of each flow
             variable_costs = self._model.flows[i, o].variable_costs
+            if variable_costs is None:
+                continue
 
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
-- 
2.43.0


From 23c511019e8fb66b67092b56d3cb072c512db329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 19/39] fix: offset is part of the investment costs only if
 there is an investment

---
 src/oemof/solph/_results.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index fa7c6fc..944c5c1 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -206,6 +206,12 @@ class Results:
         # Initialize an empty dictionary to collect results
         capex_data = {}
 
+        # The offset has to be paid only if there is an investment.
+        def fix_costs(investment, key):
+            if not investment.nonconvex:
+                return 0
+            return investment.offset[0] * self["invest_status"][key][0]
+
         # calculate yearly investment costs associated with investment FLOWS
         # and store data in capex_data dictionary
 
@@ -227,7 +233,9 @@ class Results:
                             investment_costs = (
                                 self._model.flows[i, o].investment.ep_costs[0]
                                 * invest_size
-                                + self._model.flows[i, o].investment.offset[0]
+                                + fix_costs(
+                                    self._model.flows[i, o].investment, col
+                                )
                             )
 
                             # Save values to dictionary
@@ -252,7 +260,7 @@ class Results:
 
                             investment_costs = (
                                 node.investment.ep_costs[0] * invest_size
-                                + node.investment.offset[0]
+                                + fix_costs(node.investment, col)
                             )
 
                             # Save values to dictionary
-- 
2.43.0


From 58f499c8f080082a75192ecd24d1bc91943a6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 20/39] fix: investments are scalars in results of short
 horizons

---
 src/oemof/solph/processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index db1439c..71faa31 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -151,7 +151,10 @@ def divide_scalars_sequences(df_dict, k):
         oemof tuple for results processing
     """
     try:
-        condition = df_dict[k][:-1].isnull().any()
+        # A short horizon does not leave enough rows to find gaps.
+        condition = df_dict[k][:-1].isnull().any() | df_dict[
+            k
+        ].columns.isin(PERIOD_INDEXES + ("init_content",))
         scalars = df_dict[k].loc[:, condition].dropna().iloc[0]
         sequences = df_dict[k].loc[:, ~condition]
         return {"scalars": scalars, "sequences": sequences}
-- 
2.43.0


From bc16f7bedfa2b19711e4863b71a74fa3a9c00380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 21/39] fix: invest_status belongs to the periods in results of
 multi-period models

---
 src/oemof/solph/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 71faa31..3fa327e 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -299,7 +299,7 @@ def results(model, remove_last_time_point=False):
 
     # Results extraction for a multi-period model
     else:
-        period_indexed = ["invest", "total", "old", "old_end", "old_exo"]
+        period_indexed = PERIOD_INDEXES
 
         result = _extract_multi_period_model_result(
             model,
-- 
2.43.0


From e2640b060084600e393e83ae58f2385b0c6a44d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 22/39] fix: self-discharge in results of aggregated models
 depends on the duration of time steps

---
 src/oemof/solph/processing.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 3fa327e..ff443e2 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -284,7 +284,9 @@ def results(model, remove_last_time_point=False):
             result_index = model.es.timeindex
 
     if model.es.tsa_parameters is not None:
-        df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
+        df_dict = _disaggregate_tsa_result(
+            df_dict, model.es.tsa_parameters, model.timeincrement
+        )
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -460,7 +462,7 @@ def _extract_multi_period_model_result(
     return result
 
 
-def _disaggregate_tsa_result(df_dict, tsa_parameters):
+def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     """
     Disaggregate timeseries aggregated by TSAM
 
@@ -478,6 +480,9 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     tsa_parameters : list-of-dicts
         TSAM parameters holding order, occurrences and timsteps_per_period for
         each period
+    timeincrement : sequence, optional
+        Duration of the time steps of the model (in hours), needed for the
+        self-discharge of storages. By default, all time steps last one hour.
 
     Returns
     -------
@@ -542,7 +547,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     # Add storage SOC flows:
     for storage, soc in storages.items():
         flow_dict[(storage, None)] = _calculate_soc_from_inter_and_intra_soc(
-            soc, storage, tsa_parameters
+            soc, storage, tsa_parameters, timeincrement
         )
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
@@ -595,17 +600,21 @@ def _disaggregate_segmentation(
     return disaggregated_data
 
 
-def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
+def _calculate_soc_from_inter_and_intra_soc(
+    soc, storage, tsa_parameters, timeincrement=None
+):
     """Calculate resulting SOC from inter and intra SOC flows"""
     soc_frames = []
     i_offset = 0
     t_offset = 0
+    period_offset = 0
     for p, tsa_period in enumerate(tsa_parameters):
         for i, k in enumerate(tsa_period["order"]):
             inter_value = soc["inter"].iloc[i_offset + i]["value"]
             # Self-discharge has to be taken into account for calculating
             # inter SOC for each timestep in cluster
             t0 = t_offset + i * tsa_period["timesteps"]
+            first_timestep = period_offset + k * tsa_period["timesteps"]
             # Add last timesteps of simulation in order to interpolate SOC for
             # last segment correctly:
             is_last_timestep = (
@@ -625,7 +634,12 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
                                 (1 - storage.loss_rate[t])
                                 ** tsa_period["segments"][(k, t - t0)]
                                 if "segments" in tsa_period
-                                else 1 - storage.loss_rate[t]
+                                else (1 - storage.loss_rate[t])
+                                ** (
+                                    timeincrement[first_timestep + t - t0]
+                                    if timeincrement is not None
+                                    else 1
+                                )
                             )
                             for t in range(
                                 t0,
@@ -661,6 +675,9 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
             soc_frames.append(soc_frame)
         i_offset += len(tsa_period["order"])
         t_offset += i_offset * tsa_period["timesteps"]
+        period_offset += tsa_period["timesteps"] * len(
+            tsa_period["occurrences"]
+        )
     soc_ts = pd.concat(soc_frames)
 
     soc_ts["timestep"] = range(len(soc_ts))
-- 
2.43.0


From 13e883e429191fa4011111a58874ed6c4cb6f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 23/39] fix: storage contents of multi-period models get the
 time index

---
 src/oemof/solph/processing.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index ff443e2..b7ee599 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -196,6 +196,9 @@ def set_result_index(df_dict, k, result_index):
 
 
 def set_sequences_index(df, result_index):
+    """Return `df` with `result_index` as index, the last row is dropped if
+    there is no item in the index for it.
+    """
     try:
         df.index = result_index
     except ValueError:
@@ -204,6 +207,7 @@ def set_sequences_index(df, result_index):
             df.index = result_index
         except ValueError:
             raise ValueError("Results extraction failed!")
+    return df
 
 
 def results(model, remove_last_time_point=False):
@@ -439,10 +443,17 @@ def _extract_multi_period_model_result(
         sequences = df_dict[k].loc[
             :, [col for col in df_dict[k].columns if col not in period_cols]
         ]
-        if remove_last_time_point:
-            set_sequences_index(sequences, result_index[:-1])
+        # The time index of multi-period models has one item per time step.
+        # Only variables indexed by time points have another value.
+        if len(sequences) == len(result_index) + 1 and (
+            not remove_last_time_point
+        ):
+            end = result_index[-1] + pd.Timedelta(
+                hours=float(list(model.timeincrement)[-1])
+            )
+            sequences.index = list(result_index) + [end]
         else:
-            set_sequences_index(sequences, result_index)
+            sequences = set_sequences_index(sequences, result_index)
         if period_scalars.empty:
             period_scalars = pd.DataFrame(index=d.values())
         try:
-- 
2.43.0


From 188fa397a3eaf99c8e794c3e70e8e638f8102aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 24/39] fix: reject decreasing time indexes if the last
 interval is inferred

---
 src/oemof/solph/_energy_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index f040e5f..ee1c25d 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -107,6 +107,8 @@ class EnergySystem(es.EnergySystem):
             try:
                 if timeindex.freq is None:
                     timeindex.freq = pd.infer_freq(timeindex)
+                if not timeindex.is_monotonic_increasing:
+                    raise ValueError("The timeindex has to be increasing.")
 
                 timeindex = timeindex.union(
                     pd.date_range(
-- 
2.43.0


From 0dabde1c3e63c905016a25a644dd41d33d5c260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 25/39] fix: limit the gradients of flows with NonConvex option

The gradient limits given in NonConvex were not used at all, and the
gradient constraints multiplied flow and status, so that the model became
quadratic and could not be solved by a linear solver.
---
 src/oemof/solph/flows/_shared.py | 55 ++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index c244cb6..a054e59 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -403,18 +403,29 @@ def shared_constraints_for_non_convex_flows(block):
     positive_gradient_constraint
         .. math::
 
-            P(t) \cdot Y_{status}(t)
-            - P(t-1) \cdot Y_{status}(t-1)  \leq \
-            \dot{P}_{up}(t), \\
+            P(t) - P(t-1) \leq \dot{P}_{up}(t), \\
+            \forall t \in \textrm{TIMESTEPS}.
+
+    positive_gradient_limit_constr
+        .. math::
+
+            \dot{P}_{up}(t) \leq \dot{P}_{up,max}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     negative_gradient_constraint
         .. math::
-            P(t-1) \cdot Y_{status}(t-1)
-            - P(t) \cdot Y_{status}(t) \leq \
-            \dot{P}_{down}(t), \\
+            P(t-1) - P(t) \leq \dot{P}_{down}(t), \\
+            \forall t \in \textrm{TIMESTEPS}.
+
+    negative_gradient_limit_constr
+        .. math::
+
+            \dot{P}_{down}(t) \leq \dot{P}_{down,max}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
+    (The flow is zero if the status is zero, :math:`P_{nom}` is the given or
+    the invested capacity.)
+
     Also creates:
 
     * :py:func:`startup_constraint`
@@ -444,9 +455,7 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                         - m.flow[i, o, m.TIMESTEPS[index - 1]]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                     )
                     rhs = block.positive_gradient[i, o, m.TIMEINDEX[index][1]]
                     block.positive_gradient_constr.add(
@@ -487,13 +496,11 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index - 1],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                         - m.flow[
                             i,
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                     )
                     rhs = block.negative_gradient[i, o, m.TIMESTEPS[index]]
                     block.negative_gradient_constr.add(
@@ -523,6 +530,34 @@ def shared_constraints_for_non_convex_flows(block):
         rule=_negative_gradient_flow_constraint
     )
 
+    def _capacity(i, o, p):
+        """Capacity the gradient limits are normed with"""
+        if m.flows[i, o].investment is None:
+            return m.flows[i, o].nominal_capacity
+        return block.invest[i, o, p]
+
+    def _positive_gradient_limit_rule(_, i, o, p, t):
+        """Rule definition for the limit of the positive gradient."""
+        limit = m.flows[i, o].nonconvex.positive_gradient_limit[t]
+        return block.positive_gradient[i, o, t] <= limit * _capacity(i, o, p)
+
+    block.positive_gradient_limit_constr = Constraint(
+        block.POSITIVE_GRADIENT_FLOWS,
+        m.TIMEINDEX,
+        rule=_positive_gradient_limit_rule,
+    )
+
+    def _negative_gradient_limit_rule(_, i, o, p, t):
+        """Rule definition for the limit of the negative gradient."""
+        limit = m.flows[i, o].nonconvex.negative_gradient_limit[t]
+        return block.negative_gradient[i, o, t] <= limit * _capacity(i, o, p)
+
+    block.negative_gradient_limit_constr = Constraint(
+        block.NEGATIVE_GRADIENT_FLOWS,
+        m.TIMEINDEX,
+        rule=_negative_gradient_limit_rule,
+    )
+
 
 def maximum_flow_constraint(block):
     r"""
-- 
2.43.0


From 7d75f552263fe0d3dfc9325bc051bc461f78ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 26/39] fix: keep limits per period of several properties

The constraint was always added as periodical_integral_limit (the name
made for it was ignored), so limiting a second property dropped the limit
of the first one.
---
 src/oemof/solph/constraints/integral_limit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 3f2b30d..b28effc 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -260,10 +260,10 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
         return expr <= limit[p]
 
-    om.periodical_integral_limit = po.Constraint(
-        om.PERIODS,
-        rule=_periodical_integral_limit_rule,
-        name=limit_name + "_constraint",
+    setattr(
+        om,
+        limit_name + "_constraint",
+        po.Constraint(om.PERIODS, rule=_periodical_integral_limit_rule),
     )
 
     return om
-- 
2.43.0


From 0fb665988129d34d1ee8480dba0d3e619316fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 27/39] fix: OffsetConverter: use every step of coefficient
 series with a scalar maximum

---
 src/oemof/solph/components/_offset_converter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 4c161b6..ed9a077 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -282,10 +282,12 @@ class OffsetConverter(Node):
 
         input_bus = list(self.inputs.values())[0].input
         for flow in self.outputs.values():
-            if flow.maximum.size is not None:
-                target_len = flow.maximum.size
-            else:
-                target_len = 1
+            sizes = [
+                series.size
+                for series in (flow.maximum, flow.minimum, *coefficients)
+                if series.size is not None
+            ]
+            target_len = min(sizes, default=1)
 
             slope = []
             offset = []
-- 
2.43.0


From 08efd1f0d597163aa120c3b40217e512a27a13b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 28/39] fix: slope/offset helpers hit the efficiency at a
 maximum load other than one

---
 src/oemof/solph/components/_offset_converter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index ed9a077..1655edf 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -63,7 +63,8 @@ class OffsetConverter(Node):
         m = \frac{l_\text{max}/\eta_\text{max}-l_\text{min}/\eta_\text{min}}
         {l_\text{max}-l_\text{min}}
 
-        y_\text{0,normed} = \frac{1}{\eta_{max}} - m
+        y_\text{0,normed} = l_\text{max} \cdot
+        \left(\frac{1}{\eta_\text{max}} - m\right)
 
     Where :math:`l_{max}` and :math:`l_{min}` are the maximum and minimum
     partload share (e.g. 1.0 and 0.5) with reference to the `NonConvex` flow
@@ -529,7 +530,8 @@ def slope_offset_from_nonconvex_input(
             - \text{min} \cdot \eta_\text{at min}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \eta_\text{at,max} - \text{slope}
+        \text{offset} = \text{max} \cdot
+        \left(\eta_\text{at,max} - \text{slope}\right)
 
     Parameters
     ----------
@@ -582,7 +584,7 @@ def slope_offset_from_nonconvex_input(
     slope = (max_load * eta_at_max - min_load * eta_at_min) / (
         max_load - min_load
     )
-    offset = eta_at_max - slope
+    offset = max_load * (eta_at_max - slope)
     return slope, offset
 
 
@@ -606,7 +608,8 @@ def slope_offset_from_nonconvex_output(
             - \frac{\text{min}}{\eta_\text{at min}}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \frac{1}{\eta_\text{at,max}} - \text{slope}
+        \text{offset} = \text{max} \cdot
+        \left(\frac{1}{\eta_\text{at,max}} - \text{slope}\right)
 
     Parameters
     ----------
@@ -659,5 +662,5 @@ def slope_offset_from_nonconvex_output(
     slope = (max_load / eta_at_max - min_load / eta_at_min) / (
         max_load - min_load
     )
-    offset = 1 / eta_at_max - slope
+    offset = max_load * (1 / eta_at_max - slope)
     return slope, offset
-- 
2.43.0


From 013fb58e29657b1cfcf067ea72ef2f04a05916a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 29/39] fix: aggregated time series with a time index of
 numbers

The durations of a time index that consists of numbers were divided by a
timedelta if tsa_parameters are given, which raises an error.
---
 src/oemof/solph/_energy_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index ee1c25d..d4d07ea 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -346,7 +346,10 @@ class EnergySystem(es.EnergySystem):
         elif timeindex is not None and timeincrement is None:
             df = pd.DataFrame(timeindex)
             timedelta = df.diff()
-            timeincrement = timedelta / np.timedelta64(1, "h")
+            if isinstance(timeindex, pd.DatetimeIndex):
+                timeincrement = timedelta / np.timedelta64(1, "h")
+            else:
+                timeincrement = timedelta
 
             # we want a series (squeeze)
             # without the first item (no delta defined for first entry)
-- 
2.43.0


From 540eabc0fd7c12ad18cf175e891f8f8d902d9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 30/39] fix: duals of buses whose results keep the last time
 point

---
 src/oemof/solph/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index b7ee599..c79cdd0 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -337,7 +337,7 @@ def results(model, remove_last_time_point=False):
                     scalars_col: pd.Series(dtype=float),
                 }
             else:
-                result[(bus, None)]["sequences"]["duals"] = duals
+                result[(bus, None)]["sequences"]["duals"] = df["duals"]
 
     return result
 
-- 
2.43.0


From 5356e548b0d498eac5eb807ef415c93011ce7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 31/39] fix: MIP gap of solutions with an objective value of
 zero

---
 src/oemof/solph/processing.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index c79cdd0..c1de1d6 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -832,15 +832,22 @@ def meta_results(om, undefined=False):
                     meta_res[k1][k2] = msg.format(
                         type(om.es.results[k1][0][k2])
                     )
-    meta_res["problem"]["MIPGap"] = abs(
+    gap = abs(
         meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-    ) / (
+    )
+    mean = (
         abs(
             meta_res["problem"]["Upper bound"]
             + meta_res["problem"]["Lower bound"]
         )
         / 2
     )
+    if gap == 0:
+        meta_res["problem"]["MIPGap"] = 0.0
+    elif mean == 0:
+        meta_res["problem"]["MIPGap"] = float("inf")
+    else:
+        meta_res["problem"]["MIPGap"] = gap / mean
     return meta_res
 
 
-- 
2.43.0


From c129774fd08964b80485c766b4e499cbb8b535cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 32/39] fix: parameters of components that hold flows in
 dictionaries

---
 src/oemof/solph/processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index c1de1d6..a3e3e9c 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -961,6 +961,9 @@ def __separate_attrs(
             elif isinstance(value, _FakeSequence):
                 com["scalars"][ckey] = value.value
                 del com["sequences"][ckey]
+            elif not isinstance(value, abc.Sized):
+                com["scalars"][ckey] = value
+                del com["sequences"][ckey]
             elif len(value) == 0:
                 del com["sequences"][ckey]
 
-- 
2.43.0


From 88276d50f18301d4de9ae629ad0d26364a41787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 33/39] fix: parameters of objects with series of different
 lengths

---
 src/oemof/solph/processing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index a3e3e9c..99624d7 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -947,6 +947,14 @@ def __separate_attrs(
         if exclude_none:
             remove_nones(com_data)
 
+        # Sequences may be given per time step, time point or period. Short
+        # ones are padded to fit into one table.
+        if len({len(v) for v in com_data["sequences"].values()}) > 1:
+            com_data["sequences"] = {
+                k: pd.Series(list(v))
+                for k, v in com_data["sequences"].items()
+            }
+
         com_data = {
             "scalars": pd.Series(com_data["scalars"]),
             "sequences": pd.DataFrame(com_data["sequences"]),
-- 
2.43.0


From fcaccd5caf299ef6e56b264b3d34388bcc1abad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:05 +0000
Subject: [PATCH 34/39] fix: GenericCAES exchanges the constant part of the
 cavern's energy flows only while running

The y-intersections of the cavern's in- and outflow are multiplied by the status of
compression and expansion (equations 20 and 21 of the documentation). Without it,
an idle plant gained (or lost) energy in every time step.
---
 src/oemof/solph/components/experimental/_generic_caes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_generic_caes.py b/src/oemof/solph/components/experimental/_generic_caes.py
index 384ca90..a5c7868 100644
--- a/src/oemof/solph/components/experimental/_generic_caes.py
+++ b/src/oemof/solph/components/experimental/_generic_caes.py
@@ -212,8 +212,8 @@ class GenericCAESBlock(ScalarBlock):
              + b_{cas\_in}\cdot ST_{cmp}(t)
              \quad \forall t \in T \\
         &
-        (21) \quad\; \dot{E}_{cas\_out}(t) = m_{cas\_out}\cdot P_{cmp}(t)
-             + b_{cas\_out}\cdot ST_{cmp}(t)
+        (21) \quad\; \dot{E}_{cas\_out}(t) = m_{cas\_out}\cdot P_{exp}(t)
+             + b_{cas\_out}\cdot ST_{exp}(t)
              \quad \forall t \in T \\
         &
         (22) \quad\; \eta_{cas\_tmp} \cdot CAS_{fil}(t) = CAS_{fil}(t-1)
@@ -645,7 +645,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_in[n, t]
                 == n.params["cav_e_in_m"] * self.cmp_p[n, t]
-                + n.params["cav_e_in_b"]
+                + n.params["cav_e_in_b"] * self.cmp_st[n, t]
             )
 
         self.cav_e_in_constr = Constraint(
@@ -657,7 +657,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_out[n, t]
                 == n.params["cav_e_out_m"] * self.exp_p[n, t]
-                + n.params["cav_e_out_b"]
+                + n.params["cav_e_out_b"] * self.exp_st[n, t]
             )
 
         self.cav_e_out_constr = Constraint(
-- 
2.43.0


From bf05f8bbafded8c8a06741d14b46d7fdaa6c62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:31 +0000
Subject: [PATCH 35/39] fix: bounds of PiecewiseLinearConverter's outflow are
 those of the function at all breakpoints

The outflow was bounded by the values at the first and last breakpoint, which is
wrong (or infeasible) for functions that are not increasing.
---
 .../experimental/_piecewise_linear_converter.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index fad3b91..ac492e7 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -168,12 +168,12 @@ class PiecewiseLinearConverterBlock(ScalarBlock):
         lower_bound_in = {n: min(n.in_breakpoints) for n in group}
         upper_bound_in = {n: max(n.in_breakpoints) for n in group}
         lower_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in lower_bound_in.items()
+            n: min(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
         upper_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in upper_bound_in.items()
+            n: max(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
 
         def get_inflow_bounds(model, n, t):
-- 
2.43.0


From 6b2b8bddc665d63f977dd0ab4186c5f900692c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:55 +0000
Subject: [PATCH 36/39] fix: allow minimum up/downtimes longer than the horizon

NonConvexFlowBlock fixed the status of time steps that do not exist.
---
 src/oemof/solph/flows/_non_convex_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_non_convex_flow_block.py b/src/oemof/solph/flows/_non_convex_flow_block.py
index ca63b5b..a809aa9 100644
--- a/src/oemof/solph/flows/_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_non_convex_flow_block.py
@@ -92,7 +92,11 @@ class NonConvexFlowBlock(ScalarBlock):
         for o, i in self.FIXED_CAPACITY_NONCONVEX_FLOWS:
             if m.flows[o, i].nonconvex.initial_status is not None:
                 for t in range(
-                    0, m.flows[o, i].nonconvex.first_flexible_timestep
+                    0,
+                    min(
+                        m.flows[o, i].nonconvex.first_flexible_timestep,
+                        len(m.TIMESTEPS),
+                    ),
                 ):
                     self.status[o, i, t] = m.flows[
                         o, i
-- 
2.43.0


From fd2fe853f49be2aa43c41319b6c792d93ca8b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:35 +0000
Subject: [PATCH 37/39] fix: variable costs given for more steps than needed in
 Results

---
 src/oemof/solph/_results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 944c5c1..3882bf5 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -288,7 +288,9 @@ class Results:
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
                 if col[0] == i and col[1] == o:
-                    opex = flow_values[col] * variable_costs
+                    opex = (
+                        flow_values[col] * variable_costs[: len(flow_values)]
+                    )
                     df_opex[col] = opex
 
         return df_opex
-- 
2.43.0


From 9960a1e1bab37ef937293442b705b70a7ad1f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:34 +0000
Subject: [PATCH 38/39] fix: allow arrays as timeincrement of the Model

---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index b394cb1..bfc36fd 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -150,7 +150,7 @@ class Model(po.ConcreteModel):
 
         self.es = energysystem
 
-        if kwargs.get("timeincrement"):
+        if kwargs.get("timeincrement") is not None:
             msg = "Resetting timeincrement from EnergySystem in Model."
             warnings.warn(msg, debugging.SuspiciousUsageWarning)
 
-- 
2.43.0


From 555a8e248eabc3540951f6acbf39047cc4719d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:03:24 +0000
Subject: [PATCH 39/39] fix: parameters of objects given as series with
 different indexes

---
 src/oemof/solph/processing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 99624d7..c203c66 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -948,8 +948,16 @@ def __separate_attrs(
             remove_nones(com_data)
 
         # Sequences may be given per time step, time point or period. Short
-        # ones are padded to fit into one table.
-        if len({len(v) for v in com_data["sequences"].values()}) > 1:
+        # ones are padded to fit into one table. Series are aligned by position
+        # if they do not have the same index.
+        indexes = [
+            v.index
+            for v in com_data["sequences"].values()
+            if isinstance(v, pd.Series)
+        ]
+        if len({len(v) for v in com_data["sequences"].values()}) > 1 or any(
+            not i.equals(indexes[0]) for i in indexes
+        ):
             com_data["sequences"] = {
                 k: pd.Series(list(v))
                 for k, v in com_data["sequences"].items()
-- 
2.43.0

