From 2efdc2575a6e4ded6398024878ed0843b2797b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 001/134] fix: adjacency_matrix must count the active branches
 of all components

---
 pypsa/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..74a8e1f 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -145,11 +145,11 @@ def adjacency_matrix(
         active = c.get_active_assets(investment_period)
         sel = c.static[active].index
 
-        no_branches = len(c.static.loc[sel])
+        no_branches += len(sel)
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
         weight_vals.append(
-            np.ones(no_branches) if weights is None else weights[c.name][sel].values
+            np.ones(len(sel)) if weights is None else weights[c.name][sel].values
         )
 
     if no_branches == 0:
-- 
2.43.0


From 9d86e3e9110fc96ee9c9e4db049d9ca7f0dbcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 002/134] fix: inactive branches must not form cycles of a
 sub-network

---
 pypsa/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..ecee47d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1387,7 +1387,9 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(
+        weight=weight, inf_weight=False, include_inactive=False
+    )
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From ccdcbcac52c928f88000d148dfb8ca2a5817ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 003/134] fix: the first link with a new port must get the
 default values of that port

---
 pypsa/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..861098d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1414,14 +1414,14 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+
     attrs = n.components[cls_name]["attrs"]
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
 
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     # Clean dataframe and ensure correct types
     df = pd.DataFrame(df)
     df.index = df.index.astype(str)
-- 
2.43.0


From b3b2fda4dabedd1cc01d9d1a3272b80c6c4ffe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 004/134] fix: a spill cost without any inflow must not break
 the objective

---
 pypsa/optimization/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..899b6d4 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -133,6 +133,9 @@ def define_objective(n: Network, sns: pd.Index) -> None:
             )
             if cost.empty:
                 continue
+            # spillage is not modelled if there is no inflow at all
+            if attr == "spill" and f"{c}-{attr}" not in m.variables:
+                continue
             operation = m[f"{c}-{attr}"].sel({"snapshot": sns, c: cost.columns})
             objective.append((operation * cost).sum())
 
-- 
2.43.0


From bab6028baf9c85252a6970a143f3a9fd205ee972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 005/134] fix: standing losses apply to the initial storage
 level as well

---
 pypsa/optimization/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..0a3665d 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -897,7 +897,8 @@ def define_storage_unit_constraints(n: Network, sns: pd.Index) -> None:
             per_period, include_previous_soc
         )
     lhs += [(eff_stand, previous_soc)]
-    rhs = rhs.where(include_previous_soc, rhs - soc_init)
+    # the initial level is subject to standing losses in the first snapshot
+    rhs = rhs.where(include_previous_soc, rhs - DataArray(eff_stand) * soc_init)
     m.add_constraints(lhs, "=", rhs, name=f"{c}-energy_balance", mask=active)
 
 
@@ -970,7 +971,8 @@ def define_store_constraints(n: Network, sns: pd.Index) -> None:
         include_previous_e = include_previous_e_pp.where(per_period, include_previous_e)
 
     lhs += [(eff_stand, previous_e)]
-    rhs = -e_init.where(~include_previous_e, 0)
+    # the initial level is subject to standing losses in the first snapshot
+    rhs = -(DataArray(eff_stand) * e_init).where(~include_previous_e, 0)
 
     m.add_constraints(lhs, "=", rhs, name=f"{c}-energy_balance", mask=active)
 
-- 
2.43.0


From 327b62f9483d55f4b2fdd88c157113477acf579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 006/134] fix: read the state of a unit before the optimised
 snapshots independently of its minimum up and down times

---
 pypsa/optimization/constraints.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 0a3665d..69a6eec 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -182,16 +182,22 @@ def define_operational_constraints_for_committables(
         until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
-        up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-        initially_up = up_time_before_set.astype(bool)
+        initially_up = up_time_before.astype(bool)
+        # units online since the first snapshot were already up before it
+        up_time_before_set = up_time_before + up_time_before_set.where(
+            up_time_before == start_i, 0
+        )
         # get number of snapshots for generators which are offline before the first regarded snapshot
         until_start_down = ~until_start_up.astype(bool)
         ref = range(1, len(until_start_down) + 1)
         down_time_before = until_start_down[
             until_start_down.cumsum().eq(ref, axis=0)
         ].sum()
-        down_time_before_set = down_time_before.clip(upper=min_down_time_set)
-        initially_down = down_time_before_set.astype(bool)
+        initially_down = down_time_before.astype(bool)
+        # units offline since the first snapshot were already down before it
+        down_time_before_set = down_time_before + down_time_before_set.where(
+            down_time_before == start_i, 0
+        )
 
     # lower dispatch level limit
     lhs_tuple = (1, p), (-lower_p, status)
-- 
2.43.0


From 1d767d82e94d373b8d27fe3264cea24c013790c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 007/134] fix: time-dependent ramp limits must apply to
 committable units

---
 pypsa/optimization/constraints.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 69a6eec..e034d85 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -525,9 +525,11 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
     assets = n.static(c).reindex(com_i)
 
     # com up
-    if not assets.ramp_limit_up.isnull().all():
+    ramp_limit_up_com = ramp_limit_up.reindex(active.index, columns=com_i)
+    if not ramp_limit_up_com.isnull().all().all():
         limit_start = assets.eval("ramp_limit_start_up * p_nom").to_xarray()
-        limit_up = assets.eval("ramp_limit_up * p_nom").to_xarray()
+        limit_up_df = ramp_limit_up_com * assets.p_nom
+        limit_up = DataArray(limit_up_df)
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -542,17 +544,19 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
-            rhs.loc[sns[0]] += (limit_up - limit_start) * status_start
+            limit_start_0 = assets.eval("ramp_limit_start_up * p_nom")
+            rhs.loc[sns[0]] += (limit_up_df.loc[sns[0]] - limit_start_0) * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_up.notnull()
+        mask = active.reindex(columns=com_i) & ramp_limit_up_com.notnull()
         m.add_constraints(
             lhs_tuple, "<=", rhs, name=f"{c}-com-{attr}-ramp_limit_up", mask=mask
         )
 
     # com down
-    if not assets.ramp_limit_down.isnull().all():
+    ramp_limit_down_com = ramp_limit_down.reindex(active.index, columns=com_i)
+    if not ramp_limit_down_com.isnull().all().all():
         limit_shut = assets.eval("ramp_limit_shut_down * p_nom").to_xarray()
-        limit_down = assets.eval("ramp_limit_down * p_nom").to_xarray()
+        limit_down = DataArray(ramp_limit_down_com * assets.p_nom)
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -569,7 +573,7 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
             rhs.loc[sns[0]] += -limit_shut * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_down.notnull()
+        mask = active.reindex(columns=com_i) & ramp_limit_down_com.notnull()
 
         m.add_constraints(
             lhs_tuple, ">=", rhs, name=f"{c}-com-{attr}-ramp_limit_down", mask=mask
-- 
2.43.0


From 57f4d11009aef120f7e2916c1d956b46338f7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 008/134] fix: ramp limits of one bind for units that start,
 stop or absorb power

---
 pypsa/optimization/constraints.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index e034d85..aa4f84a 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -416,7 +416,14 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
 
     if (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all():
         return
-    if (ramp_limit_up.eq(1).all() & ramp_limit_down.eq(1).all()).all():
+    # ramp limits of one never bind if output is non-negative, unless units start or stop
+    com_i = n.get_committable_i(c)
+    p_min_pu = get_as_dense(n, c, "p_min_pu", sns)
+    if (
+        (ramp_limit_up.eq(1).all() & ramp_limit_down.eq(1).all()).all()
+        and com_i.empty
+        and (p_min_pu >= 0).all().all()
+    ):
         return
 
     # ---------------- Check if ramping is at start of n.snapshots --------------- #
-- 
2.43.0


From af9f73ab33214e3a2b404737fc75949c33b773ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 009/134] fix: technology capacity limits without an investment
 period must be applied

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d63b650..a907640 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -43,7 +43,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
     ]
 
     for (carrier, sense, period), glcs_group in glcs.groupby(
-        ["carrier_attribute", "sense", "investment_period"]
+        ["carrier_attribute", "sense", "investment_period"], dropna=False
     ):
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
-- 
2.43.0


From 5d6232f8df2f3525c31ef9291f26c618d5580771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 010/134] fix: technology capacity limits may mix constraints
 with and without a bus

---
 pypsa/optimization/global_constraints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index a907640..73a56eb 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -81,10 +81,13 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-            if bus is None:
+            if bus is None or pd.isna(bus) or bus == "":
                 lhs = lhs_per_bus.sum(busdim)
-            else:
+            elif str(bus) in lhs_per_bus.data.get_index(busdim):
                 lhs = lhs_per_bus.sel(**{busdim: str(bus)}, drop=True)
+            else:
+                # no extendable asset of the carrier at this bus
+                continue
 
             n.model.add_constraints(
                 lhs, sign, glc.constant, name=f"GlobalConstraint-{name}"
-- 
2.43.0


From 29125e2cfadd0693baa42b39ec553cdcfb31f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 011/134] fix: storage out of service must not enter primary
 energy and operational limits

---
 pypsa/optimization/global_constraints.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 73a56eb..88ac3e3 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -15,8 +15,8 @@ from linopy.expressions import merge
 from numpy import isnan
 from xarray import DataArray
 
+from pypsa.descriptors import get_activity_mask, nominal_attrs
 from pypsa.descriptors import get_switchable_as_dense as get_as_dense
-from pypsa.descriptors import nominal_attrs
 
 if TYPE_CHECKING:
     from pypsa import Network
@@ -294,6 +294,7 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
         # storage units
         cond = "carrier in @emissions.index and not cyclic_state_of_charge"
         sus = n.storage_units.query(cond)
+        sus = sus[get_activity_mask(n, "StorageUnit", sns[sns_sel], sus.index).any()]
         if not sus.empty:
             em_pu = sus.carrier.map(emissions)
             sus_i = sus.index
@@ -304,6 +305,9 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier in @emissions.index and not e_cyclic")
+        stores = stores[
+            get_activity_mask(n, "Store", sns[sns_sel], stores.index).any()
+        ]
         if not stores.empty:
             em_pu = stores.carrier.map(emissions)
             e = m["Store-e"].loc[sns[sns_sel], stores.index]
@@ -364,6 +368,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
             lhs.append(expr)
 
         sus = n.storage_units.query(cond)
+        sus = sus[get_activity_mask(n, "StorageUnit", snapshots, sus.index).any()]
         if not sus.empty:
             sus_i = sus.index
             soc = m["StorageUnit-state_of_charge"].loc[snapshots, sus_i]
@@ -373,6 +378,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier == @glc.carrier_attribute and not e_cyclic")
+        stores = stores[get_activity_mask(n, "Store", snapshots, stores.index).any()]
         if not stores.empty:
             e = m["Store-e"].loc[snapshots, stores.index]
             e = e.ffill("snapshot").isel(snapshot=-1)
-- 
2.43.0


From 57fa49afbfc19ffb6bc3a8798743fc38d6948813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 012/134] fix: skip operational limits of investment periods
 that are not optimised

---
 pypsa/optimization/global_constraints.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 88ac3e3..851f17f 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -349,11 +349,12 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
     # storage units
     cond = "carrier == @glc.carrier_attribute and not cyclic_state_of_charge"
     for name, glc in glcs.iterrows():
-        snapshots = (
-            sns
-            if isnan(glc.investment_period)
-            else sns[sns.get_loc(glc.investment_period)]
-        )
+        if isnan(glc.investment_period):
+            snapshots = sns
+        elif glc.investment_period in sns.unique("period"):
+            snapshots = sns[sns.get_loc(glc.investment_period)]
+        else:
+            continue
         lhs = []
         rhs = glc.constant
 
-- 
2.43.0


From c379cadd7c2654f6d7e113c7cb29512a1c905a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 013/134] fix: the growth limit must count capacity only in its
 first active period

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 851f17f..346a8d9 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -221,7 +221,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
 
         active = pd.concat({p: n.get_active_assets(c, p) for p in periods}, axis=1)
         active = active.loc[limited_i].rename_axis(columns="periods").T
-        first_active = DataArray(active.cumsum() == 1)
+        first_active = DataArray(active & (active.cumsum() == 1))
         carriers = static.loc[limited_i, "carrier"].rename("Carrier")
 
         vars = m[var].sel({dim: limited_i}).where(first_active)
-- 
2.43.0


From 75030a1284ccd456aeaf56fb74be1bd661abd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 014/134] fix: expansion cost limits with multi-indexed
 snapshots but without investment periods

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 346a8d9..34583ea 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -515,7 +515,7 @@ def define_transmission_expansion_cost_limit(n: Network, sns: pd.Index) -> None:
                     },
                     axis=1,
                 )
-                weights = active @ period_weighting
+                weights = active @ period_weighting if n._multi_invest else 1
             else:
                 weights = 1
 
-- 
2.43.0


From 873486aca393779a553cfe84d0b7b1ad3908402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 015/134] fix: technology capacity limits per bus must align
 the buses of different components

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 34583ea..db545f4 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -77,7 +77,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
         if not lhs_per_bus_list:
             continue
 
-        lhs_per_bus = merge(lhs_per_bus_list)
+        lhs_per_bus = merge(lhs_per_bus_list, join="outer")
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-- 
2.43.0


From b33fc3ef9bde20ca467def92e5fdaa35945d4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:02 +0000
Subject: [PATCH 016/134] fix: the growth limit must align the carriers of
 different components

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index db545f4..ab4d9c0 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -235,7 +235,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
     if not lhs_list:
         return
 
-    lhs = merge(lhs_list)
+    lhs = merge(lhs_list, join="outer")
     rhs = max_absolute_growth.reindex_like(lhs.data)
 
     m.add_constraints(lhs, "<=", rhs, name="Carrier-growth_limit")
-- 
2.43.0


From a5ead1c94a81acec89de5dd9ebdfad2746082b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 017/134] fix: add the losses of all passive branches to the
 flows of the optimised snapshots

---
 pypsa/optimization/optimize.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 899b6d4..7e7bb42 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -472,11 +472,13 @@ def post_processing(n: Network) -> None:
     if len(n.loads):
         set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
 
-    # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    # losses of passive branches
+    for c in n.passive_branch_components:
+        if f"{c}-loss" in n.model.variables:
+            losses = n.model[f"{c}-loss"].solution.to_pandas().fillna(0.0)
+            for attr in ("p0", "p1"):
+                flow = n.dynamic(c)[attr].loc[sns, losses.columns]
+                set_from_frame(n, c, attr, flow + losses.to_numpy() / 2)
 
     # recalculate injection
     ca = [
-- 
2.43.0


From f5dc5e4d42c045deb60d7466aa70a6e686a866c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 018/134] fix: networks without sub-networks must not break the
 post-processing of a solution

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 7e7bb42..9661119 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -520,7 +520,7 @@ def post_processing(n: Network) -> None:
     # TODO: if multi investment optimization, the network topology is not the necessarily the same,
     # i.e. one has to iterate over the periods in order to get the correct angles.
     # Determine_network_topology is not necessarily called (only if KVL was assigned)
-    if "obj" in n.sub_networks:
+    if "obj" in n.sub_networks and len(n.sub_networks):
         n.buses_t.v_ang = pd.concat(
             [v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1
         ).reindex(columns=n.buses.index, fill_value=0.0)
-- 
2.43.0


From fc2869acb7dda71437504dcfb876e9cacd561aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 019/134] fix: global constraints without a bus are consistent

---
 pypsa/consistency.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 35f5309..3c6fcae 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -68,6 +68,9 @@ def check_for_unknown_buses(
         # if bus2, bus3... contain empty strings do not warn
         if component.name in n.branch_components and int(attr[-1]) > 1:
             missing &= component.static[attr] != ""
+        # the bus of a global constraint is optional
+        if component.name == "GlobalConstraint":
+            missing &= component.static[attr].fillna("") != ""
         if missing.any():
             _log_or_raise(
                 strict,
-- 
2.43.0


From 889e248968b5861043c76e06f60cc1ecf688888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 020/134] fix: start-up and shut-down costs of opposite sign
 must not cancel out of the objective

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 9661119..663c404 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -199,7 +199,7 @@ def define_objective(n: Network, sns: pd.Index) -> None:
         com_i = n.get_committable_i(c)
         cost = n.static(c)[attr + "_cost"].reindex(com_i)
 
-        if cost.sum():
+        if (cost != 0).any():
             var = m[f"{c}-{attr}"]
             objective.append((var * cost).sum())
 
-- 
2.43.0


From c60f0e7822b9c39a87945adccd9d0c17cc486156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 021/134] fix: refusing empty snapshots must leave the network
 unchanged

---
 pypsa/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..0dea33a 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -730,6 +730,9 @@ class Network:
             )
             raise ValueError(msg)
 
+        if len(snapshots) == 0:
+            raise ValueError("Snapshots must not be empty.")
+
         if isinstance(snapshots, pd.MultiIndex):
             if snapshots.nlevels != 2:
                 msg = "Maximally two levels of MultiIndex supported"
@@ -740,9 +743,6 @@ class Network:
         else:
             self._snapshots = pd.Index(snapshots, name="snapshot")
 
-        if len(self._snapshots) == 0:
-            raise ValueError("Snapshots must not be empty.")
-
         self.snapshot_weightings = self.snapshot_weightings.reindex(
             self._snapshots, fill_value=default_snapshot_weightings
         )
-- 
2.43.0


From f56898c87013e63d43684b358743788e3e2e0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 022/134] fix: add must not give series to existing components
 that are skipped

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 0dea33a..b6de1a2 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1340,10 +1340,14 @@ class Network:
             static_df = pd.DataFrame(static, index=names)
         else:
             static_df = pd.DataFrame(index=names)
+        existing = names.intersection(self.static(c.name).index)
         _import_components_from_df(self, static_df, c.name, overwrite=overwrite)
 
         # Load time-varying attributes as components
         for k, v in series.items():
+            # Existing components are ignored unless they are overwritten
+            if not overwrite:
+                v = v.drop(columns=existing)
             self._import_series_from_df(v, c.name, k, overwrite=overwrite)
 
         return names
-- 
2.43.0


From dc43ff993eac3c3283e5c389018356a01b324846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 023/134] fix: overwriting a component must not keep its old
 series

---
 pypsa/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 861098d..b00f55f 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1482,6 +1482,10 @@ def _import_components_from_df(
             new_static = new_static.drop(duplicated_components)
         else:
             old_static = old_static.drop(duplicated_components)
+            for k, v in n.dynamic(cls_name).items():
+                n.dynamic(cls_name)[k] = v.drop(
+                    columns=v.columns.intersection(duplicated_components)
+                )
 
     # Concatenate to new dataframe
     if not old_static.empty:
-- 
2.43.0


From 99b4a78bf15ace01b20e2135a934a7f04b8767fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 024/134] fix: custom series of further components must not be
 ignored or replace those of others

---
 pypsa/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b00f55f..b41cc77 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1565,8 +1565,10 @@ def _import_series_from_df(
     # Add all unknown attributes to the dataframe without any checks
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
-        if overwrite or attr not in dynamic:
-            dynamic[attr] = df
+        if attr in dynamic:
+            old = dynamic[attr].drop(columns=dynamic[attr].columns.intersection(df.columns))
+            df = pd.concat([old, df], axis=1)
+        dynamic[attr] = df
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From 2ceea79e68c8b88284e81c134e941d635d6cb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 025/134] fix: renaming components to the name of another one
 must be refused

---
 pypsa/components/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 2145738..bcbf1e2 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -715,6 +715,10 @@ class Components(ComponentsData, ABC):
             msg = "New names must be strings."
             raise ValueError(msg)
 
+        if not self.static.rename(index=kwargs).index.is_unique:
+            msg = f"Names for {self.name} must be unique."
+            raise ValueError(msg)
+
         # Rename component name definitions
         self.static = self.static.rename(index=kwargs)
         for k, v in self.dynamic.items():  # Modify in place
-- 
2.43.0


From ffa41f6443e6216083016ec99198bad420a5a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 026/134] fix: renaming components other than buses, and
 references other than ports

---
 pypsa/components/abstract.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index bcbf1e2..b0e3855 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -728,8 +728,12 @@ class Components(ComponentsData, ABC):
         if self.attached:
             for c in self.n_save.components.values():
                 col_name = self.name.lower()  # TODO: Generalize
-                cols = [f"{col_name}{port}" for port in c.ports]
-                if cols and not c.static.empty:
+                refs = [col_name, *[f"{col_name}{port}" for port in c.ports]]
+                refs += {"Bus": ["slack_bus"], "SubNetwork": ["sub_network"]}.get(
+                    self.name, []
+                )
+                cols = c.static.columns.intersection(refs)
+                if len(cols) and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
 
-- 
2.43.0


From 22824a3df9e83d770bead157885544a4c1c0ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:27 +0000
Subject: [PATCH 027/134] fix: set flat snapshots on networks with investment
 periods

---
 pypsa/networks.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index b6de1a2..33424b7 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -743,7 +743,13 @@ class Network:
         else:
             self._snapshots = pd.Index(snapshots, name="snapshot")
 
-        self.snapshot_weightings = self.snapshot_weightings.reindex(
+        # Nothing is indexed by the same snapshots if the period level is dropped
+        def flatten(df: pd.DataFrame) -> pd.DataFrame:
+            if df.index.nlevels > self._snapshots.nlevels:
+                return df.set_axis(df.index.to_flat_index())
+            return df
+
+        self.snapshot_weightings = flatten(self.snapshot_weightings).reindex(
             self._snapshots, fill_value=default_snapshot_weightings
         )
 
@@ -772,7 +778,7 @@ class Network:
                     dynamic[k].index = self._snapshots
                 elif k in attrs.default[attrs.varying]:
                     if isinstance(dynamic[k].index, pd.MultiIndex):
-                        dynamic[k] = dynamic[k].reindex(
+                        dynamic[k] = flatten(dynamic[k]).reindex(
                             self._snapshots, fill_value=attrs.default[attrs.varying][k]
                         )
                     else:
@@ -783,7 +789,7 @@ class Network:
                             level="timestep",
                         )
                 else:
-                    dynamic[k] = dynamic[k].reindex(self._snapshots)
+                    dynamic[k] = flatten(dynamic[k]).reindex(self._snapshots)
 
         # NB: No need to rebind dynamic to self, since haven't changed it
 
-- 
2.43.0


From 7d92ff950c840940f197a63c7dc5398beb20a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 028/134] fix: dictionaries as attribute values must be refused

---
 pypsa/networks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 33424b7..09eac00 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1248,6 +1248,13 @@ class Network:
             raise ValueError(msg)
 
         for k, v in kwargs.items():
+            if isinstance(v, dict):
+                msg = (
+                    "Dictionaries are not supported as attribute values. Please use "
+                    "pandas.Series or pandas.DataFrame instead."
+                )
+                raise NotImplementedError(msg)
+
             # If index/ columnes are passed (pd.DataFrame or pd.Series)
             # - cast names index to string and add suffix
             # - check if passed index/ columns align
@@ -1311,13 +1318,6 @@ class Network:
                     )
                     raise ValueError(msg)
 
-            if isinstance(v, dict):
-                msg = (
-                    "Dictionaries are not supported as attribute values. Please use "
-                    "pandas.Series or pandas.DataFrame instead."
-                )
-                raise NotImplementedError(msg)
-
             # Handle addition of single component
             if single_component:
                 # Read 1-dim data as time-varying attribute
-- 
2.43.0


From a9d7b5bf8b3aeaf3c34abbc0b6ddd1d6c297f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH 029/134] fix: existing links must get the default efficiency
 of a new port

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..51efae7 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -456,7 +456,7 @@ def update_linkports_component_attrs(
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
             df.columns.name = c
             n.dynamic(c)[target] = df
-        elif attr == "bus" and target not in n.static(c).columns:
+        if attr in ["bus", "efficiency"] and target not in n.static(c).columns:
             n.static(c)[target] = n.components[c]["attrs"].loc[target, "default"]
 
 
-- 
2.43.0


From 49c042b3f98d2247428c9f7e112209f2a0dad2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 030/134] fix: adding two networks must return the merged
 network

---
 pypsa/networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 09eac00..84f7e78 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -367,9 +367,9 @@ class Network:
 
         return header + content
 
-    def __add__(self, other: Network) -> None:
+    def __add__(self, other: Network) -> Network:
         """Merge all components of two networks."""
-        self.merge(other)
+        return self.merge(other)
 
     def __eq__(self, other: Any) -> bool:
         """
-- 
2.43.0


From 82f4647fd56fbc51e9937b86f79d0c6f3e49192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 031/134] fix: merging networks must skip the buses when asked
 to

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b41cc77..31a3559 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1636,7 +1636,7 @@ def merge(
         to_skip.update(components_to_skip)
     to_iterate = other.all_components - to_skip
     # ensure buses are merged first
-    to_iterate_list = ["Bus"] + sorted(to_iterate - {"Bus"})
+    to_iterate_list = sorted(to_iterate, key=lambda c: (c != "Bus", c))
     for c in other.iterate_components(to_iterate_list):
         if not c.static.index.intersection(n.static(c.name).index).empty:
             msg = f"Component {c.name} has overlapping indices, cannot merge networks."
-- 
2.43.0


From c127d8ed0ef9ad5e6ab6662f66e033b0dfe21e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 032/134] fix: networks with equal snapshot weightings of
 different type can be merged

---
 pypsa/io.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 31a3559..aa45076 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1649,12 +1649,17 @@ def merge(
         weightings_aligned = n.snapshot_weightings.equals(other.snapshot_weightings)
         if not weightings_aligned:
             # Check if only index order is different
+            # or if integers are compared with floats
             # TODO fix with #1128
-            if n.snapshot_weightings.reindex(
-                sorted(n.snapshot_weightings.columns), axis=1
-            ).equals(
-                other.snapshot_weightings.reindex(
-                    sorted(other.snapshot_weightings.columns), axis=1
+            if (
+                n.snapshot_weightings.reindex(
+                    sorted(n.snapshot_weightings.columns), axis=1
+                )
+                .astype(float)
+                .equals(
+                    other.snapshot_weightings.reindex(
+                        sorted(other.snapshot_weightings.columns), axis=1
+                    ).astype(float)
                 )
             ):
                 weightings_aligned = True
-- 
2.43.0


From bb07ee705ac14448f06a9c3a03327fcae3beca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 033/134] fix: the coordinate reference system of a network can
 be set

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 84f7e78..bfc2069 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -652,7 +652,7 @@ class Network:
         Set the coordinate reference system of the network's geometries
         (n.shapes).
         """
-        self.shapes.set_crs(new)
+        self.shapes.set_crs(new, inplace=True, allow_override=True)
         self._crs = self.shapes.crs
 
     def to_crs(self, new: int | str | pyproj.CRS) -> None:
-- 
2.43.0


From 7937b62b6a6109183b873df1c244fd148267ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 034/134] fix: copies of a network must not share its meta data

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index bfc2069..8bf7625 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1591,7 +1591,7 @@ class Network:
             "now",
         ]:
             try:
-                setattr(n, attr, getattr(self, attr))
+                setattr(n, attr, copy.deepcopy(getattr(self, attr)))
             except AttributeError:
                 pass
 
-- 
2.43.0


From 53d569537b6d396d97c6b0698e37a995180a17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 035/134] fix: copy the coordinate reference system of networks
 which is not the default

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 8bf7625..8662309 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1582,7 +1582,7 @@ class Network:
         # Catch all remaining attributes of network
         for attr in [
             "name",
-            "srid",
+            "_crs",
             "_meta",
             "_linearized_uc",
             "_multi_invest",
-- 
2.43.0


From 79de1a6772f7987b3cb1e99857f48d19b745e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 036/134] fix: copy a part of the investment periods or of
 their snapshots

---
 pypsa/networks.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 8662309..62ddd04 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1525,6 +1525,13 @@ class Network:
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
         investment_periods_ = as_index(self, investment_periods, "investment_periods")
+        if isinstance(snapshots_, pd.MultiIndex):
+            # Snapshots and investment periods must agree with each other
+            if investment_periods is not None:
+                snapshots_ = snapshots_[
+                    snapshots_.get_level_values(0).isin(investment_periods_)
+                ]
+            investment_periods_ = snapshots_.get_level_values(0).unique()
 
         # Deprecation warnings
         if with_time is not None:
-- 
2.43.0


From a786e67cb9b23106ea25a3187f56ac468059a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 037/134] fix: lists of multi-indexed snapshots are valid
 selections of snapshots

---
 pypsa/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index f6ca82c..bc13628 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -156,7 +156,11 @@ def as_index(
     elif not is_list_like(values):
         values_ = pd.Index([values], name=n_attr.names[0])
     else:
-        values_ = pd.Index(values, name=n_attr.names[0])
+        # A list of tuples is converted to a pd.MultiIndex
+        values_ = pd.Index(values)
+        values_.names = n_attr.names[: values_.nlevels]
+        if isinstance(values_, pd.MultiIndex):
+            values_.name = n_attr.name
 
     # if n_attr.nlevels != values_.nlevels:
     #     raise ValueError(
-- 
2.43.0


From 33d1705472a1b06c407f9966da0f7662ad010c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 038/134] fix: slicing a network by the name of a single bus

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 62ddd04..542ccc4 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1632,6 +1632,10 @@ class Network:
         else:
             time_i = slice(None)
 
+        # A single bus must not be reduced to a series of its attributes
+        if np.isscalar(key):
+            key = [key]
+
         # Setup new network
         n = self.__class__()
 
-- 
2.43.0


From d79f31d4acfa11f90300051843435ee315ec69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 039/134] fix: slicing a network by labels of its snapshots

---
 pypsa/networks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 542ccc4..9482ab5 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1673,7 +1673,8 @@ class Network:
             )
             n.add(c, static.index, **static)
 
-        n.set_snapshots(self.snapshots[time_i])
+        snapshot_weightings = self.snapshot_weightings.loc[time_i, :]
+        n.set_snapshots(snapshot_weightings.index)
         for c in self.all_components:
             i = n.static(c).index
             try:
@@ -1691,7 +1692,7 @@ class Network:
         for attr in ["name", "_crs"]:
             setattr(n, attr, getattr(self, attr))
 
-        n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        n.snapshot_weightings = snapshot_weightings
 
         return n
 
-- 
2.43.0


From 91ee0202f084f96ec8cf9b5bf6de717fdf51951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 040/134] fix: slices of a network keep the investment period
 weightings

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 9482ab5..ebbce81 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1693,6 +1693,10 @@ class Network:
             setattr(n, attr, getattr(self, attr))
 
         n.snapshot_weightings = snapshot_weightings
+        if n.has_investment_periods:
+            n.investment_period_weightings = self.investment_period_weightings.reindex(
+                n.investment_periods
+            )
 
         return n
 
-- 
2.43.0


From a568f9e7b3467736a50616385efb6b3e118b888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 041/134] fix: slices of a network must not keep links whose
 further buses are cut off

---
 pypsa/networks.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index ebbce81..87064ef 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1666,11 +1666,13 @@ class Network:
             n.add(c, static.index, **static)
 
         for c in self.branch_components:
-            static = pd.DataFrame(
-                self.static(c).loc[
-                    lambda df: df.bus0.isin(buses_i) & df.bus1.isin(buses_i)
-                ]
-            )
+            static = self.static(c)
+            # Further ports of multi-links may be empty
+            ports = static.filter(regex=r"^bus\d*$")
+            further = ports.columns.difference(["bus0", "bus1"])
+            connected = ports.isin(buses_i)
+            connected[further] |= ports[further].isin(["", np.nan])
+            static = pd.DataFrame(static.loc[connected.all(axis=1)])
             n.add(c, static.index, **static)
 
         snapshot_weightings = self.snapshot_weightings.loc[time_i, :]
-- 
2.43.0


From 257fd4e2b864679457581e9a785879f7a08d316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:07 +0000
Subject: [PATCH 042/134] fix: networks which differ slightly are not equal

---
 pypsa/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index bc13628..61c816a 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -259,7 +259,9 @@ def equals(
             # TODO: Resolve with data validation PR
             # Check if dtypes are equal
             try:
-                pd_testing.assert_frame_equal(a, b, check_dtype=False)
+                pd_testing.assert_frame_equal(
+                    a, b, check_dtype=False, check_exact=True
+                )
             except AssertionError:
                 msg = f"pandas objects differ at '{current_path}'\n\n{a}\n\n!=\n\n{b}\n"
                 return handle_diff(msg)
-- 
2.43.0


From 3260db37ed76f4278e9090a08740a6b4d0e7d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 043/134] fix: comparing networks of which only one is solved
 or has its own CRS

---
 pypsa/networks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 87064ef..01d51cc 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -436,10 +436,12 @@ class Network:
         ]
         not_equal = False
         if isinstance(other, self.__class__):
-            for key, value in self.__dict__.items():
+            # Attributes set by an optimisation may exist in one network only and
+            # the coordinate reference system may be the one of the class
+            for key in {**self.__dict__, **other.__dict__, "_crs": None}:
                 if not equals(
-                    value,
-                    other.__dict__[key],
+                    getattr(self, key, None),
+                    getattr(other, key, None),
                     ignored_classes=ignore,
                     log_mode=log_mode,
                     path="n." + key,
-- 
2.43.0


From 50287129dc5a7ef366a386f53e1fc5b11c891fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 044/134] fix: comparing meta data of different type

---
 pypsa/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypsa/common.py b/pypsa/common.py
index 61c816a..7d037c3 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -276,6 +276,12 @@ def equals(
             if not equals(a[k], b[k], ignored_classes, log_mode, f"{current_path}.{k}"):
                 return False
     # Iterators
+    elif isinstance(a, (dict | list | tuple)) and not isinstance(
+        b, dict if isinstance(a, dict) else (list, tuple)
+    ):
+        msg = f"Types differ at '{current_path}'\n\n{a}\n\n!=\n\n{b}\n"
+        return handle_diff(msg)
+
     elif isinstance(a, (dict | Dict)):
         for k, v in a.items():
             if k not in b:
-- 
2.43.0


From 77f1558380f51255c788ebe3ff936aeb6094555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 045/134] fix: copies of networks with an optimisation model
 are equal to the original

---
 pypsa/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 01d51cc..b947742 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -427,12 +427,15 @@ class Network:
         False
 
         """
+        import linopy
+
         ignore = [
             OptimizationAccessor,
             ClusteringAccessor,
             StatisticsAccessor,
             PlotAccessor,
             AbstractStatisticsAccessor,
+            linopy.Model,
         ]
         not_equal = False
         if isinstance(other, self.__class__):
-- 
2.43.0


From 206db8f880d9765b86b460ed425a3ae2697255a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 046/134] fix: networks with the same sub-networks are equal

---
 pypsa/components/abstract.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index b0e3855..bab6e91 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -271,9 +271,16 @@ class Components(ComponentsData, ABC):
         True
 
         """
+        # The objects of sub-networks only refer to the data of their network
+        static, other_static = (
+            c.static.drop(columns="obj", errors="ignore")
+            if c.name == "SubNetwork"
+            else c.static
+            for c in (self, other)
+        )
         return (
             equals(self.ctype, other.ctype, log_mode=log_mode, path="c.ctype")
-            and equals(self.static, other.static, log_mode=log_mode, path="c.static")
+            and equals(static, other_static, log_mode=log_mode, path="c.static")
             and equals(self.dynamic, other.dynamic, log_mode=log_mode, path="c.dynamic")
         )
 
-- 
2.43.0


From d8199db2433daa5c9856f52925629540e393e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 047/134] fix: copies, slices and added shapes of networks with
 another coordinate reference system

---
 pypsa/io.py       | 4 +++-
 pypsa/networks.py | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index aa45076..9643faf 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1430,7 +1430,9 @@ def _import_components_from_df(
     df = df.fillna(attrs["default"].to_dict())
 
     for k in static_attrs.index:
-        if k not in df.columns:
+        if k not in df.columns and static_attrs.at[k, "type"] == "geometry":
+            df[k] = gpd.GeoSeries([None] * len(df), index=df.index, crs=n.crs)
+        elif k not in df.columns:
             df[k] = static_attrs.at[k, "default"]
         else:
             if static_attrs.at[k, "type"] == "string":
diff --git a/pypsa/networks.py b/pypsa/networks.py
index b947742..d3b3787 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1552,6 +1552,8 @@ class Network:
         # Setup new network
         n = self.__class__(ignore_standard_types=ignore_standard_types)
 
+        n.crs = self.crs
+
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
         # Needs to copy buses and carriers first, since there are dependencies on them
@@ -1594,7 +1596,6 @@ class Network:
         # Catch all remaining attributes of network
         for attr in [
             "name",
-            "_crs",
             "_meta",
             "_linearized_uc",
             "_multi_invest",
@@ -1643,6 +1644,7 @@ class Network:
 
         # Setup new network
         n = self.__class__()
+        n.crs = self.crs
 
         n.add(
             "Bus",
@@ -1696,8 +1698,7 @@ class Network:
                 pass
 
         # catch all remaining attributes of network
-        for attr in ["name", "_crs"]:
-            setattr(n, attr, getattr(self, attr))
+        n.name = self.name
 
         n.snapshot_weightings = snapshot_weightings
         if n.has_investment_periods:
-- 
2.43.0


From f36a0a8415203fa119c20d5a3ede6d6567f7a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 048/134] fix: copy networks whose investment periods have no
 weightings yet

---
 pypsa/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index d3b3787..61c2209 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1589,9 +1589,9 @@ class Network:
 
             # Add weightings
             n.snapshot_weightings = self.snapshot_weightings.loc[snapshots_].copy()
-            n.investment_period_weightings = self.investment_period_weightings.loc[
-                investment_periods_
-            ].copy()
+            n.investment_period_weightings = self.investment_period_weightings.reindex(
+                investment_periods_, fill_value=1.0
+            )
 
         # Catch all remaining attributes of network
         for attr in [
@@ -1703,7 +1703,7 @@ class Network:
         n.snapshot_weightings = snapshot_weightings
         if n.has_investment_periods:
             n.investment_period_weightings = self.investment_period_weightings.reindex(
-                n.investment_periods
+                n.investment_periods, fill_value=1.0
             )
 
         return n
-- 
2.43.0


From 0d22f576b8e9b1021a7fd7ffebf392d813529a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 049/134] fix: a new port must get its tables in every network
 which uses it

---
 pypsa/descriptors.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 51efae7..13e7b05 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -440,17 +440,17 @@ def update_linkports_component_attrs(
 
     for i, attr in product(ports, ["bus", "efficiency", "p"]):
         target = f"{attr}{i}"
-        if target in n.components[c]["attrs"].index:
-            continue
-        j = "1" if attr != "efficiency" else ""
-        base_attr = attr + j
-        base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
-        n.components[c]["attrs"].index.insert(base_attr_index + 1, target)
-        n.components[c]["attrs"].loc[target] = (
-            n.components[c]["attrs"]
-            .loc[attr + j]
-            .apply(update_linkports_doc_changes, args=("1", i))
-        )
+        # Attributes are shared between networks, the data below is not
+        if target not in n.components[c]["attrs"].index:
+            j = "1" if attr != "efficiency" else ""
+            base_attr = attr + j
+            base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
+            n.components[c]["attrs"].index.insert(base_attr_index + 1, target)
+            n.components[c]["attrs"].loc[target] = (
+                n.components[c]["attrs"]
+                .loc[attr + j]
+                .apply(update_linkports_doc_changes, args=("1", i))
+            )
         # Also update container for varying attributes
         if attr in ["efficiency", "p"] and target not in n.dynamic(c).keys():
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
-- 
2.43.0


From 5216bf02ecd8bbe7cd6f346f4724b0527a91ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 050/134] fix: slices of a network must not share its snapshot
 weightings

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 61c2209..4c1389f 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1682,7 +1682,7 @@ class Network:
             static = pd.DataFrame(static.loc[connected.all(axis=1)])
             n.add(c, static.index, **static)
 
-        snapshot_weightings = self.snapshot_weightings.loc[time_i, :]
+        snapshot_weightings = self.snapshot_weightings.loc[time_i, :].copy()
         n.set_snapshots(snapshot_weightings.index)
         for c in self.all_components:
             i = n.static(c).index
-- 
2.43.0


From cef2af204d87ce4fe80515368192d748830268b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 051/134] fix: custom series must not be shared with the data
 they are added from

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 9643faf..1c58614 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1570,7 +1570,7 @@ def _import_series_from_df(
         if attr in dynamic:
             old = dynamic[attr].drop(columns=dynamic[attr].columns.intersection(df.columns))
             df = pd.concat([old, df], axis=1)
-        dynamic[attr] = df
+        dynamic[attr] = df.copy()
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From 044d2629d71bb4a4aefbd707c75aed41b679a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 052/134] fix: exports must not leave data of earlier exports
 behind

---
 pypsa/io.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 1c58614..20d87dd 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -269,10 +269,18 @@ class ExporterCSV(Exporter):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
     def remove_static(self, list_name: str) -> None:
-        if fns := list(self.csv_folder_name.joinpath(list_name).glob("*.csv")):
+        fns = [
+            fn
+            for fn in self.csv_folder_name.iterdir()
+            if fn.name == list_name + ".csv"
+            or (fn.name.startswith(list_name + "-") and fn.name.endswith(".csv"))
+        ]
+        if fns:
             for fn in fns:
                 fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(fns)} removed")
+            logger.warning(
+                f"Stale csv file(s) {', '.join(fn.name for fn in fns)} removed"
+            )
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
@@ -449,9 +457,10 @@ class ExporterExcel(Exporter):
         df.to_excel(self.writer, sheet_name=sheet_name)
 
     def remove_static(self, list_name: str) -> None:
-        if list_name in self.writer.book.sheetnames:
-            del self.writer.book[list_name]
-            logger.warning(f"Stale sheet {list_name} removed")
+        for sheet_name in self.writer.book.sheetnames:
+            if sheet_name == list_name or sheet_name.startswith(list_name + "-"):
+                del self.writer.book[sheet_name]
+                logger.warning(f"Stale sheet {sheet_name} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         sheet_name = f"{list_name}-{attr}"
@@ -795,10 +804,12 @@ def _export_to_exporter(
         if not export_standard_types and component in n.standard_type_components:
             static = static.drop(n.components[component]["standard_types"].index)
 
+        # remove what an earlier export left for this component
+        exporter.remove_static(list_name)
+
         # first do static attributes
         static = static.rename_axis(index="name")
         if static.empty:
-            exporter.remove_static(list_name)
             continue
 
         col_export = []
@@ -840,8 +851,6 @@ def _export_to_exporter(
             if len(col_export) > 0:
                 static = dynamic[attr].reset_index()[col_export]
                 exporter.save_series(list_name, attr, static)
-            else:
-                exporter.remove_series(list_name, attr)
 
         exported_components.append(list_name)
 
-- 
2.43.0


From 3535d240bd613fe033ca0fbb05f8890631bc47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 053/134] fix: import snapshots which are not dates from csv
 and excel

---
 pypsa/io.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 20d87dd..f8d95f0 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -66,6 +66,16 @@ def _retrieve_from_url(url: str, io_function: Callable) -> pd.DataFrame | Networ
         return io_function(file_path)
 
 
+def _parse_timesteps(timesteps: pd.Series) -> pd.Series:
+    """Read timesteps as dates if they are dates and keep other labels."""
+    if timesteps.dtype != object or timesteps.isin(["now", "today"]).any():
+        return timesteps
+    try:
+        return pd.to_datetime(timesteps)
+    except (ValueError, TypeError):
+        return timesteps
+
+
 # TODO: Restructure abc inheritance
 
 
@@ -181,9 +191,9 @@ class ImporterCSV(Importer):
         )
         # backwards-compatibility: level "snapshot" was rename to "timestep"
         if "snapshot" in df:
-            df["snapshot"] = pd.to_datetime(df.snapshot)
+            df["snapshot"] = _parse_timesteps(df.snapshot)
         if "timestep" in df:
-            df["timestep"] = pd.to_datetime(df.timestep)
+            df["timestep"] = _parse_timesteps(df.timestep)
         return df
 
     def get_investment_periods(self) -> pd.Series:
@@ -358,9 +368,9 @@ class ImporterExcel(Importer):
             df = df.set_index(df.columns[0])
             # backwards-compatibility: level "snapshot" was rename to "timestep"
             if "snapshot" in df:
-                df["snapshot"] = pd.to_datetime(df.snapshot)
+                df["snapshot"] = _parse_timesteps(df.snapshot)
             if "timestep" in df:
-                df["timestep"] = pd.to_datetime(df.timestep)
+                df["timestep"] = _parse_timesteps(df.timestep)
             return df
         except (ValueError, KeyError):
             return None
-- 
2.43.0


From 4b7cbe28fe7d4baaba9d0d752815a2bda9be24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 054/134] fix: the name of an imported network is a string

---
 pypsa/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index f8d95f0..beb6909 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -163,10 +163,13 @@ class ImporterCSV(Importer):
         if not fn.is_file():
             return None
 
-        dtypes = {"pypsa_version": str}
+        converters = {"name": str, "pypsa_version": str}
         return dict(
             pd.read_csv(
-                fn, encoding=self.encoding, dtype=dtypes, quotechar=self.quotechar
+                fn,
+                encoding=self.encoding,
+                converters=converters,
+                quotechar=self.quotechar,
             ).iloc[0]
         )
 
@@ -1231,7 +1234,8 @@ def _import_from_importer(
     pypsa_version = None
 
     if attrs is not None:
-        n.name = attrs.pop("name")
+        name = attrs.pop("name")
+        n.name = "" if pd.isnull(name) else str(name)
 
         try:
             pypsa_version = [int(s) for s in attrs.pop("pypsa_version").split(".")]
-- 
2.43.0


From 78bea0fa47fd56b826093e2111b0a7ed1cc22d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 055/134] fix: meta data of any type in excel files

---
 pypsa/io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index beb6909..7708374 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -443,10 +443,8 @@ class ExporterExcel(Exporter):
         # Convert meta dictionary to DataFrame with proper handling of nested dicts
         meta_items = []
         for key, value in meta.items():
-            # If value is a dict, serialize it as JSON
-            if isinstance(value, dict):
-                value = json.dumps(value)
-            meta_items.append([key, value])
+            # Serialize values as JSON to keep their type
+            meta_items.append([key, json.dumps(value)])
 
         df = pd.DataFrame(meta_items, columns=["Key", "Value"])
         df.to_excel(self.writer, sheet_name="meta", index=False)
-- 
2.43.0


From 0ccad0c8134629fe3bed8e4e1b0de37f5fafc6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 056/134] fix: export series which differ from the static value
 only

---
 pypsa/io.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 7708374..de9f178 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -823,6 +823,7 @@ def _export_to_exporter(
         if static.empty:
             continue
 
+        values = static
         col_export = []
         for col in static.columns:
             # do not export derived attributes
@@ -853,11 +854,16 @@ def _export_to_exporter(
                 default = attrs.at[attr, "default"]
 
                 if pd.isnull(default):
-                    col_export = dynamic[attr].columns[
-                        (~pd.isnull(dynamic[attr])).any()
-                    ]
+                    export = (~pd.isnull(dynamic[attr])).any()
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    export = (dynamic[attr] != default).any()
+                # series at the default matter if the static value is another one
+                if attr in values.columns:
+                    value = values[attr].reindex(dynamic[attr].columns)
+                    export |= (value != default) & ~(
+                        pd.isnull(value) & pd.isnull(default)
+                    )
+                col_export = dynamic[attr].columns[export]
 
             if len(col_export) > 0:
                 static = dynamic[attr].reset_index()[col_export]
-- 
2.43.0


From 2d4be1fa11fa98d2cc0cb8e1b7a75f2b950bac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 057/134] fix: export columns of mixed type to hdf5

---
 pypsa/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index de9f178..c9e1526 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -591,7 +591,10 @@ class ExporterHDF5(Exporter):
         df = df.rename_axis(index="name")
         self.index[list_name] = df.index
         df = df.reset_index()
-        self.ds.put("/" + list_name, df, format="table", index=False)
+        try:
+            self.ds.put("/" + list_name, df, format="table", index=False)
+        except TypeError:  # columns of mixed type
+            self.ds.put("/" + list_name, df, format="fixed")
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         df = df.set_axis(self.index[list_name].get_indexer(df.columns), axis="columns")
-- 
2.43.0


From 5127d5d284ce79da18d1ccc7cdb0678e77bc63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 058/134] fix: shapes of an imported network get its coordinate
 reference system

---
 pypsa/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index c9e1526..5d02173 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1234,8 +1234,7 @@ def _import_from_importer(
     crs = importer.get_crs()
     crs = crs.pop("_crs", None)
     if crs is not None:
-        crs = CRS.from_wkt(crs)
-        n._crs = crs
+        n.crs = CRS.from_wkt(crs)
 
     current_pypsa_version = [int(s) for s in n.pypsa_version.split(".")]
     pypsa_version = None
-- 
2.43.0


From 378f1f877b3e3de92e15daf6701a14f4d52f3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 059/134] fix: components without attributes in excel files

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 5d02173..be9d3d5 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -461,7 +461,8 @@ class ExporterExcel(Exporter):
         investment_periods.to_excel(self.writer, sheet_name="investment_periods")
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
-        df.to_excel(self.writer, sheet_name=list_name)
+        # the index is written as a column since it is lost if there are no others
+        df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From 84a2ed00e4038c7cec7f0c47515545b63110a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 060/134] fix: empty meta data in excel files

---
 pypsa/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index be9d3d5..f35af2b 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -343,7 +343,9 @@ class ImporterExcel(Importer):
                     value = row["Value"]
 
                     # Try to parse JSON strings back into dictionaries
-                    if isinstance(value, str):
+                    if pd.isnull(value):
+                        value = None
+                    elif isinstance(value, str):
                         try:
                             value = json.loads(value)
                         except json.JSONDecodeError:
-- 
2.43.0


From 9fdf62ee54d82ac5994b93e827c1b4e1cf3db88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 061/134] fix: export the weightings of the investment periods
 of the snapshots only

---
 pypsa/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index f35af2b..2cd5ab6 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -805,6 +805,9 @@ def _export_to_exporter(
 
     # export investment period weightings
     investment_periods = n.investment_period_weightings
+    investment_periods = investment_periods[
+        investment_periods.index.isin(n.investment_periods)
+    ]
     exporter.save_investment_periods(investment_periods)
 
     exported_components = []
-- 
2.43.0


From 3568f2969f484401e1bf10c9b5f070fb409ae393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 062/134] fix: import optional references to components whose
 names are numbers

---
 pypsa/io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 2cd5ab6..f355574 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1321,6 +1321,13 @@ def _import_from_importer(
         if component == "Link":
             update_linkports_component_attrs(n, where=df)
 
+        # numbers as text are read as floats if some are missing
+        attrs = n.components[component]["attrs"]
+        for col in df.columns.intersection(attrs.index[attrs.typ == str]):
+            values = df[col].dropna()
+            if df[col].dtype.kind == "f" and (values % 1 == 0).all():
+                df[col] = values.astype(int).astype(str).reindex(df.index)
+
         n.add(component, df.index, **df)
 
         if not skip_time:
-- 
2.43.0


From 3829d0e3f41fa014a3e1f9d7c733158a30172519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 063/134] fix: export missing weightings of investment periods
 as missing

---
 pypsa/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index f355574..0c2497f 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -808,6 +808,8 @@ def _export_to_exporter(
     investment_periods = investment_periods[
         investment_periods.index.isin(n.investment_periods)
     ]
+    if not investment_periods.empty:
+        investment_periods = investment_periods.reindex(n.investment_periods)
     exporter.save_investment_periods(investment_periods)
 
     exported_components = []
-- 
2.43.0


From 7796d07deeb5e44781bb941bbe6d4e8941c81bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 064/134] fix: export columns of booleans stored as objects to
 netcdf

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 0c2497f..f5ec1ea 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -709,7 +709,7 @@ class ExporterNetCDF(Exporter):
             self.ds["investment_periods_" + attr] = investment_periods[attr]
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
-        df = df.rename_axis(index=list_name + "_i")
+        df = df.rename_axis(index=list_name + "_i").infer_objects()
         self.ds[list_name + "_i"] = df.index
         for attr in df.columns:
             self.ds[list_name + "_" + attr] = df[attr]
-- 
2.43.0


From fa53b76911e85f9d936770da6187db1977c8e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 065/134] fix: iterate over time-varying attributes

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 13e7b05..1081dd8 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -150,7 +150,7 @@ def get_switchable_as_iter(
 
     return (
         reindex_maybe(
-            static.loc[fixed_i, attr].append(dynamic[attr].loc[sn, varying_i])
+            pd.concat([static.loc[fixed_i, attr], dynamic[attr].loc[sn, varying_i]])
         )
         for sn in snapshots
     )
-- 
2.43.0


From cf7b94a2314ac8e3ddb54110352a4e8799fbaf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 066/134] fix: inactive generators must not control the voltage
 or balance the power

---
 pypsa/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ecee47d..e86be0c 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1031,6 +1031,7 @@ def find_slack_bus(sub_network: SubNetwork) -> None:
     Find the slack bus in a connected sub-network.
     """
     gens = sub_network.generators()
+    gens = gens[gens.active]
 
     if len(gens) == 0:
         #        logger.warning("No generators in sub-network {}, better hope power is already balanced".format(sub_network.name))
@@ -1080,6 +1081,7 @@ def find_bus_controls(sub_network: SubNetwork) -> None:
     find_slack_bus(sub_network)
 
     gens = sub_network.generators()
+    gens = gens[gens.active]
     buses_i = sub_network.buses_i()
 
     # default bus control is PQ
-- 
2.43.0


From fec9a7265bec50cb498660246618dc7623ff8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 067/134] fix: incidence matrix of networks without branches

---
 pypsa/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index 74a8e1f..e9c83f5 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -213,6 +213,10 @@ def incidence_matrix(
         no_branches += len(c.static.loc[sel])
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
+
+    if no_branches == 0:
+        return sp.sparse.csr_matrix((no_buses, 0))
+
     bus0_inds = np.concatenate(bus0_inds)
     bus1_inds = np.concatenate(bus1_inds)
 
-- 
2.43.0


From 226649066277d12d0f5fb7413e5fbbcc8c810650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 068/134] fix: power flow of sub-networks where all lines or
 transformers are inactive

---
 pypsa/pf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index e86be0c..ea1fb15 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -734,6 +734,8 @@ def sub_network_pf(
     s0 = pd.DataFrame(v0 * np.conj(i0), columns=branches_i, index=sns)
     s1 = pd.DataFrame(v1 * np.conj(i1), columns=branches_i, index=sns)
     for c in sub_network.iterate_components(n.passive_branch_components):
+        if not c.static.active.any():
+            continue
         s0t = s0.loc[:, c.name]
         s1t = s1.loc[:, c.name]
         n.dynamic(c.name).p0.loc[sns, s0t.columns] = s0t.values.real
@@ -1516,6 +1518,8 @@ def sub_network_lpf(
         )
 
         for c in sub_network.iterate_components(n.passive_branch_components):
+            if not c.static.active.any():
+                continue
             f = flows.loc[:, c.name]
             n.dynamic(c.name).p0.loc[sns, f.columns] = f
             n.dynamic(c.name).p1.loc[sns, f.columns] = -f
-- 
2.43.0


From f59419f5e03945ddafb69d42d1e26eed4c4bc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 069/134] fix: inactive links and shunt impedances do not take
 part in the power flow

---
 pypsa/pf.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ea1fb15..d2b528a 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -151,6 +151,7 @@ def _network_prepare_and_run_pf(
     # deal with links
     if not n.links.empty:
         p_set = get_as_dense(n, "Link", "p_set", sns)
+        p_set.loc[:, ~n.links.active] = 0.0
         n.links_t.p0.loc[sns] = p_set.loc[sns]
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
@@ -1257,16 +1258,9 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
-    b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
-        .sum()
-        .reindex(buses_o, fill_value=0.0)
-    )
-    g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
-        .sum()
-        .reindex(buses_o, fill_value=0.0)
-    )
+    shunts = n.shunt_impedances.query("active")
+    b_sh = shunts.b_pu.groupby(shunts.bus).sum().reindex(buses_o, fill_value=0.0)
+    g_sh = shunts.g_pu.groupby(shunts.bus).sum().reindex(buses_o, fill_value=0.0)
     Y_sh = g_sh + 1.0j * b_sh
 
     # get bus indices
-- 
2.43.0


From c418b7d873ed2cd5ea1e3d7cc2fe93a0ccb9041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 070/134] fix: distributed slack of sub-networks with a single
 bus

---
 pypsa/pf.py | 81 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index d2b528a..f7866a9 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -370,55 +370,60 @@ def sub_network_pf_singlebus(
     ]
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
-    if distribute_slack:
-        for bus, group in sub_network.generators().groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
-                if all(n.generators[slack_weights] == 0):
-                    msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
-                    raise ValueError(msg)
-                bus_generator_shares = (
-                    n.generators[slack_weights].loc[group.index].pipe(normed).fillna(0)
-                )
-            elif slack_weights == "p_set":
-                generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
-                if generators_t_p_choice.isna().all().all():
-                    msg = (
-                        f"Invalid slack weights! Generator attribute {slack_weights}"
-                        f" is always NaN."
-                    )
-                    raise ValueError(msg)
-                if (generators_t_p_choice == 0).all().all():
-                    msg = (
-                        f"Invalid slack weights! Generator attribute {slack_weights}"
-                        f" is always zero."
-                    )
-                    raise ValueError(msg)
+    error = pd.Series(0.0, index=sns)
 
-                bus_generator_shares = (
-                    generators_t_p_choice.loc[sns, group.index]
-                    .apply(normed, axis=1)
-                    .fillna(0)
+    if distribute_slack:
+        gens = sub_network.generators().query("active")
+        if isinstance(slack_weights, str) and slack_weights in ["p_nom", "p_nom_opt"]:
+            if all(n.generators[slack_weights] == 0):
+                msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
+                raise ValueError(msg)
+            weights = gens[slack_weights]
+        elif isinstance(slack_weights, str) and slack_weights == "p_set":
+            generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            if generators_t_p_choice.isna().all().all():
+                msg = (
+                    f"Invalid slack weights! Generator attribute {slack_weights}"
+                    f" is always NaN."
                 )
-            else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
-            n.generators_t.p.loc[sns, group.index] += (
-                bus_generator_shares.multiply(
-                    -n.buses_t.p.loc[sns, bus], axis=0
+                raise ValueError(msg)
+            if (generators_t_p_choice == 0).all().all():
+                msg = (
+                    f"Invalid slack weights! Generator attribute {slack_weights}"
+                    f" is always zero."
                 )
-            )  # fmt: skip
-    else:
+                raise ValueError(msg)
+            weights = generators_t_p_choice[gens.index]
+        elif slack_weights.index.isin(sub_network.generators().index).all():
+            weights = slack_weights.reindex(gens.index)
+        else:
+            # weights of the bus: distribute evenly if no p_nom given
+            weights = gens.p_nom if gens.p_nom.any() else gens.p_nom + 1
+        if isinstance(weights, pd.Series):
+            weights = pd.DataFrame({g: weights[g] for g in gens.index}, index=sns)
+
+        slack_power = -n.buses_t.p.loc[sns, sub_network.slack_bus]
+        distributed = (
+            weights.apply(normed, axis=1).fillna(0).multiply(slack_power, axis=0)
+        )
+        n.generators_t.p.loc[sns, gens.index] += distributed
+        if len(gens):
+            error = (slack_power - distributed.sum(axis=1)).abs()
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
         )  # fmt: skip
 
-    n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-        n.buses_t.q.loc[sns, sub_network.slack_bus]
-    )  # fmt: skip
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
+            n.buses_t.q.loc[sns, sub_network.slack_bus]
+        )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
     n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
 
-    return 0, 0.0, True  # dummy substitute for newton raphson output
+    # substitute for newton raphson output
+    return 0, error, error <= 1e-6
 
 
 def sub_network_pf(
-- 
2.43.0


From 26d36fd2928a178e9daf04e88e1f4e30586617db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 071/134] fix: shunt impedances in the power flow of
 sub-networks with a single bus

---
 pypsa/pf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index f7866a9..9d82d17 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -370,6 +370,15 @@ def sub_network_pf_singlebus(
     ]
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
+    # the slack has to cover the power of the shunt impedances
+    shunts = n.shunt_impedances.loc[sub_network.shunt_impedances_i()].query("active")
+    v_squared = v_mag_pu_set[sub_network.slack_bus] ** 2
+    for shunt in shunts.index:
+        n.shunt_impedances_t.p.loc[sns, shunt] = v_squared * shunts.g_pu[shunt]
+        n.shunt_impedances_t.q.loc[sns, shunt] = v_squared * shunts.b_pu[shunt]
+    n.buses_t.p.loc[sns, sub_network.slack_bus] -= v_squared * shunts.g_pu.sum()
+    n.buses_t.q.loc[sns, sub_network.slack_bus] += v_squared * shunts.b_pu.sum()
+
     error = pd.Series(0.0, index=sns)
 
     if distribute_slack:
-- 
2.43.0


From 17f411cd0094cbd46eb739f054601807b36b2801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 072/134] fix: shares of the generators in the distributed
 slack

---
 pypsa/pf.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 9d82d17..9ba3f18 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -517,6 +517,8 @@ def sub_network_pf(
     sn_buses = sub_network.buses().index
     sn_generators = sub_network.generators().index
 
+    active_gens = n.generators.loc[sn_generators].query("active")
+
     generator_slack_weights_b = False
     bus_slack_weights_b = False
     if isinstance(slack_weights, pd.Series):
@@ -629,7 +631,9 @@ def sub_network_pf(
 
     if distribute_slack:
         if isinstance(slack_weights, str) and slack_weights == "p_set":
-            generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            generators_t_p_choice = get_as_dense(
+                n, "Generator", slack_weights, sns, active_gens.index
+            )
             bus_generation = generators_t_p_choice.rename(columns=n.generators.bus)
             slack_weights_calc = (
                 pd.DataFrame(
@@ -649,7 +653,7 @@ def sub_network_pf(
                 raise ValueError(msg)
 
             slack_weights_calc = (
-                n.generators.groupby("bus")[slack_weights]
+                active_gens.groupby("bus")[slack_weights]
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -658,9 +662,9 @@ def sub_network_pf(
 
         elif generator_slack_weights_b:
             # convert generator-based slack weights to bus-based slack weights
+            slack_weights = slack_weights.reindex(active_gens.index, fill_value=0.0)
             slack_weights_calc = (
-                slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                slack_weights.groupby(active_gens.bus)
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -669,7 +673,12 @@ def sub_network_pf(
 
         elif bus_slack_weights_b:
             # take bus-based slack weights
-            slack_weights_calc = slack_weights.reindex(buses_o).pipe(normed).fillna(0)
+            slack_weights_calc = (
+                slack_weights[slack_weights.index.isin(active_gens.bus)]
+                .reindex(buses_o)
+                .pipe(normed)
+                .fillna(0)
+            )
 
     ss = np.empty((len(sns), len(buses_o)), dtype=complex)
     roots = np.empty(
@@ -790,7 +799,7 @@ def sub_network_pf(
         distributed_slack_power = (
             n.buses_t.p.loc[sns, sn_buses] - ss[:, buses_indexer(sn_buses)].real
         )
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in active_gens.groupby("bus"):
             if isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 bus_generator_shares = (
@@ -809,10 +818,11 @@ def sub_network_pf(
                         slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
                     )
                 else:
-                    bus_generators_p_nom = n.generators.p_nom.loc[group.index]
+                    attr = "p_nom" if bus_slack_weights_b else slack_weights
+                    bus_generators_p_nom = group[attr]
                     # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
+                    if (bus_generators_p_nom == 0).all():
+                        bus_generators_p_nom = bus_generators_p_nom + 1
                     bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
-- 
2.43.0


From ffca8a2e51e3c37c8a8118e07a8dc974a2c596b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 073/134] fix: power flow of sub-networks without generators

---
 pypsa/pf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 9ba3f18..582d5b6 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -829,15 +829,16 @@ def sub_network_pf(
                         sns, bus
                     ].apply(lambda row: row * bus_generator_shares)
                 )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
         )
 
     # set the Q of the slack and PV generators
-    n.generators_t.q.loc[sns, sub_network.slack_generator] += (
-        n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    )
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] += (
+            n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
+        )
 
     n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
         n.buses_t.q.loc[sns, sub_network.pvs]
-- 
2.43.0


From 9084a9303c6dade608d7c631c67123f8c9352eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 074/134] fix: contingency analysis of all or named snapshots

---
 pypsa/contingency.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..768151a 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -13,7 +13,7 @@ import pandas as pd
 from numpy import r_
 from scipy.sparse import csr_matrix
 
-from pypsa.common import deprecated_common_kwargs
+from pypsa.common import as_index, deprecated_common_kwargs
 from pypsa.pf import calculate_PTDF
 
 if TYPE_CHECKING:
@@ -89,16 +89,13 @@ def network_lpf_contingency(
         num_passive_branch x num_branch_outages DataFrame of new power flows
 
     """
-    if snapshots is None:
-        snapshots = n.snapshots
+    sns = as_index(n, snapshots, "snapshots")
 
-    if isinstance(snapshots, Sequence):
+    if len(sns) > 1:
         logger.warning(
             "Apologies LPF contingency, this only works for single snapshots at the moment, taking the first snapshot."
         )
-        snapshot = snapshots[0]
-    else:
-        snapshot = snapshots
+    snapshot = sns[0]
 
     n.lpf(snapshot)
 
-- 
2.43.0


From f8e9e3696d4fb87140e9f5b614fdebed3cfff33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 075/134] fix: contingency analysis of networks with several
 sub-networks or inactive branches

---
 pypsa/contingency.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 768151a..e3d35bc 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -112,8 +112,10 @@ def network_lpf_contingency(
     p0 = p0_base.to_frame("base")
 
     for sub_network in n.sub_networks.obj:
-        sub_network._branches = sub_network.branches()
-        sub_network.calculate_BODF()
+        branches = sub_network.branches()
+        sub_network._branches = branches[branches.active]
+        if not sub_network._branches.empty:
+            sub_network.calculate_BODF()
 
     for branch in branch_outages:
         if not isinstance(branch, tuple):
@@ -122,10 +124,12 @@ def network_lpf_contingency(
 
         sub_network = n.sub_networks.obj[passive_branches.sub_network[branch]]
 
-        branch_i = sub_network._branches.index.get_loc(branch)
-        p0_new = p0_base + pd.Series(
-            sub_network.BODF[:, branch_i] * p0_base[branch], sub_network._branches.index
-        )
+        p0_new = p0_base.copy()
+        if branch in sub_network._branches.index:
+            branch_i = sub_network._branches.index.get_loc(branch)
+            p0_new.loc[sub_network._branches.index] += (
+                sub_network.BODF[:, branch_i] * p0_base[branch]
+            )
         p0_new.name = branch
 
         p0 = pd.concat([p0, p0_new], axis=1)
-- 
2.43.0


From 96f256cff6de94e6fdc6bbbc4e8787742c3b4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 076/134] fix: contingency analysis of multi-indexed snapshots

---
 pypsa/contingency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index e3d35bc..de55150 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -97,7 +97,7 @@ def network_lpf_contingency(
         )
     snapshot = sns[0]
 
-    n.lpf(snapshot)
+    n.lpf(sns[:1])
 
     # Store the flows from the base case
 
-- 
2.43.0


From e83d7efc1d870540eab6ff5c985d68cfca618d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 077/134] fix: restore options which option_context sets more
 than once

---
 pypsa/_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/_options.py b/pypsa/_options.py
index ce47df8..031ba9e 100644
--- a/pypsa/_options.py
+++ b/pypsa/_options.py
@@ -228,7 +228,7 @@ def option_context(*args: Any) -> Generator[None, None, None]:
     try:
         # Store original values and set new ones
         for option_name, value in pairs:
-            original_values[option_name] = options.get_option(option_name)
+            original_values.setdefault(option_name, options.get_option(option_name))
             options.set_option(option_name, value)
         yield
     finally:
-- 
2.43.0


From 5a339e8e1a12cf89246af517d5043b5dc21eb310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 078/134] fix: strict consistency check for unknown carriers

---
 pypsa/consistency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 3c6fcae..c0fc90e 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -858,7 +858,7 @@ def consistency_check(
     for c in n.iterate_components():
         # Checks all components
         check_for_unknown_buses(n, c, "unknown_buses" in strict)
-        check_for_unknown_carriers(n, c, "unkown_carriers" in strict)
+        check_for_unknown_carriers(n, c, "unknown_carriers" in strict)
         check_time_series(n, c, "time_series" in strict)
         check_static_power_attributes(n, c, "static_power_attrs" in strict)
         check_time_series_power_attributes(n, c, "time_series_power_attrs" in strict)
-- 
2.43.0


From 2d8e79ecd1e4fec16169def1abc13c51a088e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 079/134] fix: consistency check of custom columns and of ports
 with two digits

---
 pypsa/consistency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index c0fc90e..cb34160 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -27,7 +27,7 @@ class ConsistencyError(ValueError):
 
 
 def _bus_columns(df: pd.DataFrame) -> pd.Index:
-    return df.columns[df.columns.str.startswith("bus")]
+    return df.columns[df.columns.str.fullmatch(r"bus\d*")]
 
 
 def _log_or_raise(strict: bool, message: str, *args: Any) -> None:
@@ -66,7 +66,7 @@ def check_for_unknown_buses(
     for attr in _bus_columns(component.static):
         missing = ~component.static[attr].astype(str).isin(n.buses.index)
         # if bus2, bus3... contain empty strings do not warn
-        if component.name in n.branch_components and int(attr[-1]) > 1:
+        if component.name in n.branch_components and int(attr[3:]) > 1:
             missing &= component.static[attr] != ""
         # the bus of a global constraint is optional
         if component.name == "GlobalConstraint":
-- 
2.43.0


From 6a610c24f6f29d1c0c94c5ce75321df029599797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 080/134] fix: strict consistency check for investment periods
 raises a ConsistencyError

---
 pypsa/consistency.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index cb34160..b5e018d 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -616,20 +616,14 @@ def check_investment_periods(n: Network, strict: bool = False) -> None:
                 "The global constraints contain investment periods which "
                 "are not in the set of optimized snapshots."
             )
-            if strict:
-                raise ValueError(msg)
-            else:
-                _log_or_raise(strict, msg)
+            _log_or_raise(strict, msg)
     else:
         if constraint_periods:
             msg = (
                 "The global constraints contain investment periods but "
                 "snapshots are not multi-indexed."
             )
-            if strict:
-                raise ValueError(msg)
-            else:
-                _log_or_raise(strict, msg)
+            _log_or_raise(strict, msg)
 
 
 @deprecated_common_kwargs
-- 
2.43.0


From cb43ceeae1256c3b61babc985c3a6ea5360e6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 081/134] fix: consistency check of networks with misaligned
 time series

---
 pypsa/consistency.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index b5e018d..2bfdec1 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -368,6 +368,11 @@ def check_time_series_power_attributes(
 
         if len(varying_attr):
             attr = varying_attr[0][0]
+            for col in [attr + "_max_pu", attr + "_min_pu"]:
+                # misaligned time series are reported by check_time_series
+                if not n.snapshots.isin(component.dynamic[col].index).all():
+                    return
+
             max_pu = n.get_switchable_as_dense(component.name, attr + "_max_pu")
             min_pu = n.get_switchable_as_dense(component.name, attr + "_min_pu")
 
-- 
2.43.0


From 826f5d4f6e9d22c7589534c1c9c4e54f499ae634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 082/134] fix: consistency check of the data types of shapes

---
 pypsa/consistency.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 2bfdec1..788ae2b 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -556,6 +556,8 @@ def check_dtypes_(component: Components, strict: bool = False) -> None:
 
     """
     dtypes_soll = component.attrs.loc[component.attrs["static"], "dtype"].drop("name")
+    geometries = component.attrs.index[component.attrs["type"] == "geometry"]
+    dtypes_soll[geometries] = component.attrs.loc[geometries, "typ"]
     unmatched = component.static.dtypes[dtypes_soll.index] != dtypes_soll
 
     if unmatched.any():
-- 
2.43.0


From 8f886960e2b85d1270a7ff1cec4c143ff78a3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 083/134] fix: custom columns whose names start with bus are no
 ports

---
 pypsa/components/abstract.py    | 6 +++++-
 pypsa/descriptors.py            | 6 +++++-
 pypsa/io.py                     | 4 ++--
 pypsa/pf.py                     | 6 +++---
 pypsa/statistics/abstract.py    | 2 +-
 pypsa/statistics/expressions.py | 2 +-
 6 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index bab6e91..4606b2c 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -639,7 +639,11 @@ class Components(ComponentsData, ABC):
         ['0', '1']
 
         """
-        return [str(col)[3:] for col in self.static if str(col).startswith("bus")]
+        return [
+            str(col)[3:]
+            for col in self.static
+            if str(col) == "bus" or (str(col)[:3] == "bus" and str(col)[3:].isdigit())
+        ]
 
     @property
     def nominal_attr(self) -> str:
diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 1081dd8..b6a90a1 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -477,7 +477,11 @@ def additional_linkports(n: Network, where: Iterable[str] | None = None) -> list
     """
     if where is None:
         where = n.links.columns
-    return [i[3:] for i in where if i.startswith("bus") and i not in ["bus0", "bus1"]]
+    return [
+        i[3:]
+        for i in where
+        if i.startswith("bus") and i[3:].isdigit() and i not in ["bus0", "bus1"]
+    ]
 
 
 def bus_carrier_unit(n: Network, bus_carrier: str | Sequence[str] | None) -> str:
diff --git a/pypsa/io.py b/pypsa/io.py
index f5ec1ea..c62d809 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1497,9 +1497,9 @@ def _import_components_from_df(
 
     # check all the buses are well-defined
     # TODO use func from consistency checks
-    for attr in [attr for attr in df if attr.startswith("bus")]:
+    for attr in df.filter(regex=r"^bus\d*$").columns:
         # allow empty buses for multi-ports
-        port = int(attr[-1]) if attr[-1].isdigit() else 0
+        port = int(attr[3:]) if attr[3:] else 0
         mask = ~df[attr].isin(n.buses.index)
         if port > 1:
             mask &= df[attr].ne("")
diff --git a/pypsa/pf.py b/pypsa/pf.py
index 582d5b6..18cec59 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -59,7 +59,7 @@ def _allocate_pf_outputs(n: Network, linear: bool = False) -> None:
         "Bus": ["p", "v_ang", "v_mag_pu"],
         "Line": ["p0", "p1"],
         "Transformer": ["p0", "p1"],
-        "Link": ["p" + col[3:] for col in n.links.columns if col[:3] == "bus"],
+        "Link": ["p" + port for port in n.components.links.ports],
     }
 
     if not linear:
@@ -120,7 +120,7 @@ def _calculate_controllable_nodal_power_balance(
                 for c in network.iterate_components(
                     network.controllable_branch_components
                 )
-                for i in [int(col[3:]) for col in c.static.columns if col[:3] == "bus"]
+                for i in [int(port) for port in c.ports]
             )
 
 
@@ -1520,7 +1520,7 @@ def sub_network_lpf(
             .sum()
             .T.reindex(columns=buses_o, fill_value=0)
             for c in n.iterate_components(n.controllable_branch_components)
-            for i in [int(col[3:]) for col in c.static.columns if col[:3] == "bus"]
+            for i in [int(port) for port in c.ports]
         ]
     )
 
diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 863e78e..69982ae 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -248,7 +248,7 @@ class AbstractStatisticsAccessor(ABC):
             if n.static(c).empty:
                 continue
 
-            ports = [str(col)[3:] for col in n.static(c) if str(col).startswith("bus")]
+            ports = n.components[c].ports
             if not at_port:
                 ports = [ports[0]]
 
diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..1111a1c 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -75,7 +75,7 @@ def get_transmission_branches(
     index = {}
     for c in n.branch_components:
         bus_map = (
-            n.static(c).filter(like="bus").apply(lambda ds: ds.map(n.buses.carrier))
+            n.static(c).filter(regex=r"^bus\d*$").apply(lambda ds: ds.map(n.buses.carrier))
         )
         if isinstance(bus_carrier, str):
             bus_carrier = [bus_carrier]
-- 
2.43.0


From b81f3ae31b4dad95786df1d2a58135b34e5cd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 084/134] fix: fixed nominal capacities of components which are
 not extendable

---
 pypsa/optimization/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index aa4f84a..3cefa21 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -759,7 +759,8 @@ def define_fixed_nominal_constraints(n: Network, c: str, attr: str) -> None:
         return
 
     dim = f"{c}-{attr}_set_i"
-    fix = n.static(c)[attr + "_set"].dropna().rename_axis(dim)
+    ext_i = n.get_extendable_i(c)
+    fix = n.static(c).loc[ext_i, attr + "_set"].dropna().rename_axis(dim)
 
     if fix.empty:
         return
-- 
2.43.0


From 01f1124527263b49631b97a8ab7401bb46b35079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 085/134] fix: inactive loads do not consume power in the
 results of an optimisation

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 663c404..16da954 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -470,7 +470,8 @@ def post_processing(n: Network) -> None:
 
     # load
     if len(n.loads):
-        set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
+        p_set = get_as_dense(n, "Load", "p_set", sns)
+        set_from_frame(n, "Load", "p", p_set.mul(n.loads.active.astype(float)))
 
     # losses of passive branches
     for c in n.passive_branch_components:
-- 
2.43.0


From 2224812419cf5f9536b7d90566cd673a0d14c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 086/134] fix: optimisation results of other snapshots are kept

---
 pypsa/optimization/optimize.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 16da954..aae095c 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -385,7 +385,8 @@ def assign_solution(n: Network) -> None:
     # recalculate storageunit net dispatch
     if not n.static("StorageUnit").empty:
         c = "StorageUnit"
-        n.dynamic(c)["p"] = n.dynamic(c)["p_dispatch"] - n.dynamic(c)["p_store"]
+        p = n.dynamic(c)["p_dispatch"].loc[sns] - n.dynamic(c)["p_store"].loc[sns]
+        set_from_frame(n, c, "p", p)
 
     n.objective = m.objective.value
 
@@ -496,10 +497,13 @@ def post_processing(n: Network) -> None:
     def sign(c: str) -> int:
         return n.static(c).sign if "sign" in n.static(c) else -1  # sign for 'Link'
 
-    n.buses_t.p = (
+    p = (
         pd.concat(
             [
-                n.dynamic(c)[attr].mul(sign(c)).rename(columns=n.static(c)[group])
+                n.dynamic(c)[attr]
+                .loc[sns]
+                .mul(sign(c))
+                .rename(columns=n.static(c)[group])
                 for c, attr, group in ca
             ],
             axis=1,
@@ -508,6 +512,7 @@ def post_processing(n: Network) -> None:
         .sum()
         .T.reindex(columns=n.buses.index, fill_value=0.0)
     )
+    set_from_frame(n, "Bus", "p", p)
 
     def v_ang_for_(sub: SubNetwork) -> pd.DataFrame:
         buses_i = sub.buses_o
@@ -516,15 +521,16 @@ def post_processing(n: Network) -> None:
         sub.calculate_B_H(skip_pre=True)
         Z = pd.DataFrame(np.linalg.pinv((sub.B).todense()), buses_i, buses_i)
         Z -= Z[sub.slack_bus]
-        return n.buses_t.p.reindex(columns=buses_i) @ Z
+        return p.reindex(columns=buses_i) @ Z
 
     # TODO: if multi investment optimization, the network topology is not the necessarily the same,
     # i.e. one has to iterate over the periods in order to get the correct angles.
     # Determine_network_topology is not necessarily called (only if KVL was assigned)
     if "obj" in n.sub_networks and len(n.sub_networks):
-        n.buses_t.v_ang = pd.concat(
+        v_ang = pd.concat(
             [v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1
         ).reindex(columns=n.buses.index, fill_value=0.0)
+        set_from_frame(n, "Bus", "v_ang", v_ang)
 
 
 def optimize(
-- 
2.43.0


From 5c72e9d13b2bb073eea37df778b5a8ef1a7b16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 087/134] fix: branch outages of a security-constrained
 optimisation can be a MultiIndex

---
 pypsa/optimization/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..c1b6185 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -393,8 +393,9 @@ def optimize_security_constrained(
 
     if branch_outages is None:
         branch_outages = all_passive_branches
-    elif isinstance(branch_outages, (list | pd.Index)):
-        branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
+    else:
+        if not isinstance(branch_outages, pd.MultiIndex):
+            branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
 
         if diff := set(branch_outages) - set(all_passive_branches):
             raise ValueError(
-- 
2.43.0


From 74ff0c0e8aafa4d2e6fb84eb430c93a4b277c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 088/134] fix: security-constrained optimisation of networks
 with inactive branches

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c1b6185..71eb5b2 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -417,7 +417,7 @@ def optimize_security_constrained(
     )
 
     for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
+        branches_i = sub_network.branches_i(active_only=True)
         outages = branches_i.intersection(branch_outages)
 
         if outages.empty:
-- 
2.43.0


From 08728d6ee853d0e51f78ffa7c063a157f8c918f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 089/134] fix: outages of a security-constrained optimisation
 follow the topology of each investment period

---
 pypsa/optimization/abstract.py | 98 ++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 35 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 71eb5b2..b5d3a8a 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -17,6 +17,7 @@ import pandas as pd
 import xarray as xr
 from linopy import LinearExpression, QuadraticExpression, merge
 
+from pypsa.common import as_index
 from pypsa.descriptors import nominal_attrs
 
 if TYPE_CHECKING:
@@ -416,41 +417,68 @@ def optimize_security_constrained(
         **model_kwargs,
     )
 
-    for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i(active_only=True)
-        outages = branches_i.intersection(branch_outages)
-
-        if outages.empty:
-            continue
-
-        sub_network.calculate_BODF()
-        BODF = pd.DataFrame(sub_network.BODF, index=branches_i, columns=branches_i)[
-            outages
-        ]
-
-        for c_outage, c_affected in product(outages.unique(0), branches_i.unique(0)):
-            c_outage_ = c_outage + "-outage"
-            c_outages = outages.get_loc_level(c_outage)[1]
-            flow_outage = m.variables[c_outage + "-s"].loc[:, c_outages]
-            flow_outage = flow_outage.rename({c_outage: c_outage_})
-
-            bodf = BODF.loc[c_affected, c_outage]
-            bodf = xr.DataArray(bodf, dims=[c_affected, c_outage_])
-            additional_flow = flow_outage * bodf
-            for bound, kind in product(("lower", "upper"), ("fix", "ext")):
-                coord = c_affected + "-" + kind
-                constraint = coord + "-s-" + bound
-                if constraint not in m.constraints:
-                    continue
-                rename = {c_affected: coord}
-                added_flow = additional_flow.rename(rename)
-                con = m.constraints[constraint]  # use this as a template
-                # idx now contains fixed/extendable for the sub-network
-                idx = con.lhs.indexes[coord].intersection(added_flow.indexes[coord])
-                sel = {coord: idx}
-                lhs = con.lhs.sel(sel) + added_flow.sel(sel)
-                name = constraint + f"-security-for-{c_outage_}-in-{sub_network}"
-                m.add_constraints(lhs, con.sign.sel(sel), con.rhs.sel(sel), name=name)
+    sns = as_index(n, snapshots, "snapshots")
+    periods = sns.unique("period") if n._multi_invest else [None]
+
+    for period in periods:
+        sel_sns = slice(None)
+        if period is not None:
+            # The branches in service depend on the period
+            n.determine_network_topology(
+                investment_period=period, skip_isolated_buses=True
+            )
+            sel_sns = np.flatnonzero(sns.get_level_values("period") == period)
+
+        for sub_network in n.sub_networks.obj:
+            branches_i = sub_network.branches_i(active_only=True)
+            outages = branches_i.intersection(branch_outages)
+
+            if outages.empty:
+                continue
+
+            sub_network.calculate_BODF()
+            BODF = pd.DataFrame(
+                sub_network.BODF, index=branches_i, columns=branches_i
+            )[outages]
+
+            for c_outage, c_affected in product(
+                outages.unique(0), branches_i.unique(0)
+            ):
+                c_outage_ = c_outage + "-outage"
+                c_outages = outages.get_loc_level(c_outage)[1]
+                flow_outage = m.variables[c_outage + "-s"].loc[:, c_outages]
+                flow_outage = flow_outage.isel(snapshot=sel_sns)
+                flow_outage = flow_outage.rename({c_outage: c_outage_})
+
+                bodf = BODF.loc[c_affected, c_outage]
+                bodf = xr.DataArray(bodf, dims=[c_affected, c_outage_])
+                additional_flow = flow_outage * bodf
+                for bound, kind in product(("lower", "upper"), ("fix", "ext")):
+                    coord = c_affected + "-" + kind
+                    constraint = coord + "-s-" + bound
+                    if constraint not in m.constraints:
+                        continue
+                    rename = {c_affected: coord}
+                    added_flow = additional_flow.rename(rename)
+                    con = m.constraints[constraint]  # use this as a template
+                    # idx now contains fixed/extendable for the sub-network
+                    idx = con.lhs.indexes[coord].intersection(
+                        added_flow.indexes[coord]
+                    )
+                    if idx.empty:
+                        continue
+                    sel = {coord: idx}
+                    lhs, sign, rhs = (
+                        con_attr.sel(sel).isel(snapshot=sel_sns)
+                        for con_attr in (con.lhs, con.sign, con.rhs)
+                    )
+                    lhs = lhs + added_flow.sel(sel)
+                    name = (
+                        constraint
+                        + f"-security-for-{c_outage_}-in-{sub_network.name}"
+                        + ("" if period is None else f"-{period}")
+                    )
+                    m.add_constraints(lhs, sign, rhs, name=name)
 
     return n.optimize.solve_model(**kwargs)
 
-- 
2.43.0


From 6b90ac2fcbb190216ff8c8ffe322aaa38b018d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 090/134] fix: the first iteration of transmission expansion
 starts from the given line capacities

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index b5d3a8a..f739a00 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -286,7 +286,7 @@ def optimize_transmission_expansion_iteratively(
             )
             break
 
-        s_nom_prev = n.lines.s_nom_opt.copy() if iteration else n.lines.s_nom.copy()
+        s_nom_prev = n.lines.s_nom_opt.copy() if iteration > 1 else n.lines.s_nom.copy()
         status, termination_condition = n.optimize(snapshots, **kwargs)  # type: ignore
         if status != "ok":
             msg = (
-- 
2.43.0


From bc49ab6275e502aa166bd62e65d1bec5a39fdde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 091/134] fix: transmission expansion must not discretize
 branches which are not extendable

---
 pypsa/optimization/abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index f739a00..0675a3d 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -243,8 +243,8 @@ def optimize_transmission_expansion_iteratively(
         line_threshold = line_threshold or 0.3
         link_threshold = link_threshold or {}
 
-        if line_unit_size:
-            n.lines["s_nom"] = n.lines.apply(
+        if line_unit_size and len(ext_i):
+            n.lines.loc[ext_i, "s_nom"] = n.lines.loc[ext_i].apply(
                 lambda row: discretized_capacity(
                     nom_opt=row["s_nom_opt"],
                     nom_max=row["s_nom_max"],
@@ -257,7 +257,9 @@ def optimize_transmission_expansion_iteratively(
 
         if link_unit_size:
             for carrier in link_unit_size.keys() & n.links.carrier.unique():
-                idx = n.links.carrier == carrier
+                idx = ext_links_to_fix_b & (n.links.carrier == carrier)
+                if not idx.any():
+                    continue
                 n.links.loc[idx, "p_nom"] = n.links.loc[idx].apply(
                     lambda row: discretized_capacity(
                         nom_opt=row["p_nom_opt"],
-- 
2.43.0


From fe2dac5a5084bdcd32622c6722d76d9da7b3fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 092/134] fix: operating costs of links are part of the
 statistics

---
 pypsa/statistics/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 1111a1c..c22d836 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1157,7 +1157,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                 if cost_type in cost_types_ and cost_type in n.static(c):
                     attr = lookup.query(cost_type).loc[c].index.item()
                     cost = n.get_switchable_as_dense(c, cost_type)
-                    p = n.dynamic(c)[attr]
+                    # the dispatch of links is reported at their first port
+                    p = n.dynamic(c)["p0" if (c, attr) == ("Link", "p") else attr]
                     var = p * p if cost_type == "marginal_cost_quadratic" else p
                     opex = var * cost
                     term = self._aggregate_timeseries(opex, weights, agg=aggregate_time)
-- 
2.43.0


From bb2064717369be031348f0c8d49dabc15cbb3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 093/134] fix: operating costs in statistics are weighted as in
 the objective

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index c22d836..71854a4 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1144,7 +1144,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             result = []
-            weights = get_weightings(n, c)
+            weights = n.snapshot_weightings["objective"]
             weights_one = pd.Series(1.0, index=weights.index)
             com_i = n.get_committable_i(c)
 
-- 
2.43.0


From 142826167c04b6f959ad766ef172008b63489062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 094/134] fix: transmission expansion must run the minimal
 number of iterations

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 0675a3d..9c0c98d 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -280,7 +280,7 @@ def optimize_transmission_expansion_iteratively(
 
     iteration = 1
     diff = msq_threshold
-    while diff >= msq_threshold or iteration < min_iterations:
+    while diff >= msq_threshold or iteration <= min_iterations:
         if iteration > max_iterations:
             logger.info(
                 f"Iteration {iteration} beyond max_iterations "
-- 
2.43.0


From 71686f9a85dcb4033e79714ff8e1f7079a5ac65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 095/134] fix: weights of near-optimal alternatives can cover
 some components only or be series

---
 pypsa/optimization/abstract.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 9c0c98d..257bad9 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -653,12 +653,15 @@ def optimize_mga(
             if isinstance(coeffs, dict):
                 coeffs = pd.Series(coeffs)
             if attr == nominal_attrs[c] and isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(n.get_extendable_i(c))
+                coeffs = coeffs.reindex(n.get_extendable_i(c), fill_value=0)
                 coeffs.index.name = ""
             elif isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(columns=n.static(c).index)
+                coeffs = coeffs.reindex(n.static(c).index, fill_value=0)
+                coeffs = coeffs.rename_axis(c)
             elif isinstance(coeffs, pd.DataFrame):
-                coeffs = coeffs.reindex(columns=n.static(c).index, index=snapshots)
+                coeffs = coeffs.reindex(
+                    columns=n.static(c).index, index=snapshots, fill_value=0
+                )
             objective.append(m[f"{c}-{attr}"] * coeffs * sense)
 
     m.objective = merge(objective)
-- 
2.43.0


From 3f76340e3e6bfac7e259434a9ae29e3a7ea2a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 096/134] fix: discretized capacities follow the threshold
 while another full unit fits

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 257bad9..34af870 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -115,7 +115,7 @@ def discretized_capacity(
         return block_capacity
 
     else:
-        if (nom_max - nom_opt) < unit_size:
+        if (nom_opt // unit_size + 1) * unit_size > nom_max:
             if (
                 fractional_last_unit_size
                 and ((nom_opt % unit_size) / (nom_max % unit_size)) >= threshold
-- 
2.43.0


From b8adfc8af27f74f42a692f77452c6aea75c88f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 097/134] fix: a fixed dispatch must not be overwritten by
 later results

---
 pypsa/optimization/abstract.py | 4 ++--
 pypsa/optimization/optimize.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 34af870..d99bf90 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -741,9 +741,9 @@ def optimize_and_run_non_linear_powerflow(
         return dict(status=status, terminantion_condition=condition)
 
     for c in n.one_port_components:
-        n.dynamic(c)["p_set"] = n.dynamic(c)["p"]
+        n.dynamic(c)["p_set"] = n.dynamic(c)["p"].copy()
     for c in {"Link"}:
-        n.dynamic(c)["p_set"] = n.dynamic(c)["p0"]
+        n.dynamic(c)["p_set"] = n.dynamic(c)["p0"].copy()
 
     n.generators.control = "PV"
     for sub_network in n.sub_networks.obj:
diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index aae095c..57c5cec 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -753,9 +753,9 @@ class OptimizationAccessor:
         """
         n = self.n
         for c in n.one_port_components:
-            n.dynamic(c).p_set = n.dynamic(c).p
+            n.dynamic(c).p_set = n.dynamic(c).p.copy()
         for c in n.controllable_branch_components:
-            n.dynamic(c).p_set = n.dynamic(c).p0
+            n.dynamic(c).p_set = n.dynamic(c).p0.copy()
 
     def add_load_shedding(
         self,
-- 
2.43.0


From e34d430e460cc8c3d94c2b872b1e3cac64207739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 098/134] fix: the carrier of load shedding generators must be
 defined

---
 pypsa/optimization/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 57c5cec..d2a6032 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -786,8 +786,8 @@ class OptimizationAccessor:
             Maximal load shedding. The default is 1e9 (kW).
         """
         n = self.n
-        if "Load" not in n.carriers.index:
-            n.add("Carrier", "Load")
+        if "load" not in n.carriers.index:
+            n.add("Carrier", "load")
         if buses is None:
             buses = n.buses.index
 
-- 
2.43.0


From 5cce22795b9b124587a3794d3d3d80261ebadfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 099/134] fix: weights of near-optimal alternatives must not be
 multiplied by dimensions of other variables

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index d99bf90..88c65bb 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -662,7 +662,7 @@ def optimize_mga(
                 coeffs = coeffs.reindex(
                     columns=n.static(c).index, index=snapshots, fill_value=0
                 )
-            objective.append(m[f"{c}-{attr}"] * coeffs * sense)
+            objective.append((m[f"{c}-{attr}"] * coeffs * sense).sum())
 
     m.objective = merge(objective)
 
-- 
2.43.0


From 9f19a8b7bd9a90c99e22fcfc53ee69fa04c1a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 100/134] fix: drop_zero=False keeps zero values in statistics

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 71854a4..5b0f02e 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -257,7 +257,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         if round_ is not None:
             df = df.round(round_)
-        if drop_zero_ is not None:
+        if drop_zero_:
             df = df[df != 0]
 
         return df
-- 
2.43.0


From 4ab01fc68398f76a41b5db2c3c2941e7f4755232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 101/134] fix: inactive assets are not curtailed in statistics

---
 pypsa/statistics/expressions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5b0f02e..4b5cc58 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1845,6 +1845,14 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                 n.get_switchable_as_dense(c, "p_max_pu") * n.static(c).p_nom_opt
                 - n.dynamic(c).p
             ).clip(lower=0)
+            # assets which are not active have no power to be curtailed
+            if self.is_multi_indexed:
+                active = pd.concat(
+                    {y: n.get_active_assets(c, y) for y in n.investment_periods}, axis=1
+                ).T.reindex(n.snapshots, level=0)
+                p = p.where(active, 0)
+            else:
+                p = p.mul(n.get_active_assets(c), axis=1)
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(p, weights, agg=aggregate_time)
 
-- 
2.43.0


From 02ddbdc922f542f482db364a23a663156a2db1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 102/134] fix: expanded capacities of multi-investment networks

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 4b5cc58..5b10a31 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1029,7 +1029,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        installed = installed.reindex(optimal.index, fill_value=0)
+        installed = installed.reindex(optimal.index, fill_value=0).fillna(0)
         df = optimal.sub(installed).where(optimal.abs() > installed.abs(), 0)
         df.attrs["name"] = "Expanded Capacity"
         df.attrs["unit"] = "MW"
-- 
2.43.0


From 42cad4df75ffbc6da7fef86f0af81cd3ea5a6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 103/134] fix: system costs of components without operating
 costs

---
 pypsa/statistics/expressions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5b10a31..7f1e2b8 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1307,7 +1307,13 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        df = capex.add(opex, fill_value=0)
+        # empty results have no matching index or columns
+        if capex.empty or opex.empty:
+            df = opex if capex.empty else capex
+        else:
+            # names of the levels depend on the components in a result
+            opex = opex.rename_axis(index=capex.index.names)
+            df = capex.add(opex, fill_value=0)
         df.attrs["name"] = "System Cost"
         df.attrs["unit"] = "currency"
         return df
-- 
2.43.0


From 9e25d797f3f995608dcf1f90c80c400923ca59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 104/134] fix: time series of capacity factors in
 multi-investment networks

---
 pypsa/statistics/expressions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 7f1e2b8..fb0fbd4 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1979,7 +1979,13 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         df = self._aggregate_components(func, agg=aggregate_groups, **kwargs)  # type: ignore
         capacity = self.optimal_capacity(aggregate_groups=aggregate_groups, **kwargs)
-        df = df.div(capacity.reindex(df.index), axis=0)
+        capacity = capacity.reindex(df.index)
+        if isinstance(capacity, pd.DataFrame) and df.columns.nlevels > 1:
+            # time series are related to the capacity of their investment period
+            capacity = capacity[df.columns.get_level_values(0)].set_axis(
+                df.columns, axis=1
+            )
+        df = df.div(capacity, axis=0)
         df.attrs["name"] = "Capacity Factor"
         df.attrs["unit"] = "p.u."
         return df
-- 
2.43.0


From b679e4be3276c6d2c28473aa3db63182f9120f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 105/134] fix: capacity factors of branches with a given bus
 carrier

---
 pypsa/statistics/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index fb0fbd4..319141d 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1970,7 +1970,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             comps=comps,
             groupby=groupby,
             aggregate_across_components=aggregate_across_components,
-            at_port=at_port,
+            # operation and capacity refer to the same port
+            at_port=at_port or False,
             carrier=carrier,
             bus_carrier=bus_carrier,
             nice_names=nice_names,
-- 
2.43.0


From 2b851e00c3cf6915c2fea4a552814046d4a3e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 106/134] fix: statistics at given ports only

---
 pypsa/statistics/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 69982ae..b82e30d 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -251,6 +251,9 @@ class AbstractStatisticsAccessor(ABC):
             ports = n.components[c].ports
             if not at_port:
                 ports = [ports[0]]
+            elif at_port is not True:
+                at_ports = [at_port] if isinstance(at_port, str) else at_port
+                ports = [port for port in ports if port in at_ports]
 
             values = []
             for port in ports:
-- 
2.43.0


From 84d9b941cf5fe238de43f5a0d9192082740bd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 107/134] fix: statistics at all ports must not count empty
 ports

---
 pypsa/statistics/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index b82e30d..912d075 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -332,11 +332,12 @@ class AbstractStatisticsAccessor(ABC):
         obj: Any,
     ) -> Any:
         """Filter for components which are connected to bus with `bus_carrier`."""
-        if bus_carrier is None:
-            return obj
-
         idx = self._get_component_index(obj, c)
         ports = n.static(c).loc[idx, f"bus{port}"]
+        if bus_carrier is None:
+            # links may have empty ports
+            return obj if (ports != "").all() else obj.loc[ports.index[ports != ""]]
+
         port_carriers = ports.map(n.buses.carrier)
         if isinstance(bus_carrier, str):
             if bus_carrier in n.buses.carrier.unique():
-- 
2.43.0


From 3a0bc803dceb5a0a55685b439b2fde1d1db148e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 108/134] fix: statistics at all ports of components whose
 index has no name

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 319141d..acc4689 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -214,7 +214,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         """Concatenate a list of DataFrames."""
         df = pd.concat(values, copy=False) if len(values) > 1 else values[0]
         if not df.index.is_unique:
-            df = df.groupby(level=df.index.names).agg(agg)
+            df = df.groupby(level=list(range(df.index.nlevels))).agg(agg)
         return df
 
     def _aggregate_components_concat_data(
-- 
2.43.0


From 5e29c84d65d8366567a6c05e18654d96098bcec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 109/134] fix: expressions for fixed capacities of all
 components

---
 pypsa/optimization/expressions.py | 43 ++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 3ff8eee..4c4096d 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -163,6 +163,22 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
         attr = attr.item()
         return m.variables[f"{c}-{attr}"]
 
+    def _get_capacity(
+        self, c: str, include_non_extendable: bool = True
+    ) -> LinearExpression | None:
+        """
+        Get the nominal capacities, which are variables for extendable assets only.
+        """
+        m = self._n.model
+        attr = nominal_attrs[c]
+        fixed = self._n.df(c).query(f"~{attr}_extendable")[attr].rename_axis(c)
+        if f"{c}-{attr}" not in m.variables:
+            if not include_non_extendable or fixed.empty:
+                return None
+            return LinearExpression(fixed, m)
+        capacity = 1 * m.variables[f"{c}-{attr}"].rename({f"{c}-ext": c})
+        return capacity + fixed if include_non_extendable else capacity
+
     def capex(
         self,
         comps: str | Sequence[str] | None = None,
@@ -188,12 +204,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series | None:
-            m = n.model
-            capacity = m.variables[f"{c}-{nominal_attrs[c]}"]
-            capacity = capacity.rename({f"{c}-ext": c})
-            if include_non_extendable:
-                query = f"~{nominal_attrs[c]}_extendable"
-                capacity = capacity + n.df(c).query(query)["p_nom"]
+            capacity = self._get_capacity(c, include_non_extendable)
+            if capacity is None:
+                return None
             costs = n.df(c)[cost_attribute][capacity.indexes[c]]
             return capacity * costs
 
@@ -241,13 +254,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series | None:
-            m = n.model
-            attr = nominal_attrs[c]
-            capacity = m.variables[f"{c}-{nominal_attrs[c]}"]
-            capacity = capacity.rename({f"{c}-ext": c})
-            if include_non_extendable:
-                query = f"~{attr}_extendable"
-                capacity = capacity + n.df(c).query(query)[attr]
+            capacity = self._get_capacity(c, include_non_extendable)
+            if capacity is None:
+                return None
             efficiency = port_efficiency(n, c, port=port)[capacity.indexes[c]]
             if not at_port:
                 efficiency = abs(efficiency)
@@ -553,11 +562,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
-            attr = nominal_attrs[c]
-            capacity = (
-                n.model.variables[f"{c}-{attr}"].rename({f"{c}-ext": c})
-                + n.df(c).query(f"~{attr}_extendable")[attr]
-            )
+            capacity = self._get_capacity(c)
+            if capacity is None:
+                return None
             idx = capacity.indexes[c]
             p_max_pu = DataArray(n.get_switchable_as_dense(c, "p_max_pu")[idx])
             operation = self._get_operational_variable(c).loc[:, idx]
-- 
2.43.0


From 081b13152c226e68e6d3898b3a64da9f6d2e6695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 110/134] fix: curtailment expressions of assets without
 availability

---
 pypsa/optimization/expressions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 4c4096d..9a3141f 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -568,9 +568,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             idx = capacity.indexes[c]
             p_max_pu = DataArray(n.get_switchable_as_dense(c, "p_max_pu")[idx])
             operation = self._get_operational_variable(c).loc[:, idx]
-            # the following needs to be fixed in linopy, right now constants cannot be used for broadcasting
-            # curtailment = capacity * p_max_pu - operation
-            curtailment = (capacity - operation / p_max_pu) * p_max_pu
+            curtailment = capacity * p_max_pu - operation
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(curtailment, weights, agg=aggregate_time)
 
-- 
2.43.0


From ead45be4b24649678e2bec9c6c88dae3e39484bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 111/134] fix: energy balance expressions of solved networks

---
 pypsa/optimization/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 9a3141f..23fb379 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -443,7 +443,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
                 raise ValueError(
                     f"Got unexpected argument kind={kind}. Must be 'supply', 'withdrawal' or None."
                 )
-            p = var.where(coeffs != 0) * coeffs
+            p = (var * coeffs).where(coeffs != 0)
             return self._aggregate_timeseries(p, weights, agg=aggregate_time)
 
         return self._aggregate_components(
-- 
2.43.0


From f5fb6ca7bb7bc628e751bbce63811881cb6254ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 112/134] fix: aggregating a single group of an expression
 across components

---
 pypsa/optimization/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 23fb379..dce737b 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -145,7 +145,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             raise ValueError(f"Aggregation method {agg} not supported.")
         if check_if_empty(expr):
             return expr
-        group = expr.indexes["group"].to_frame().drop(columns="component").squeeze()
+        group = expr.indexes["group"].to_frame().drop(columns="component").squeeze(axis=1)
         return expr.groupby(group).sum()
 
     def _get_operational_variable(self, c: str) -> Variable | LinearExpression:
-- 
2.43.0


From ad710c3f26125667930fc4d1d70b6f3d4070d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 113/134] fix: operating cost expressions are weighted as in
 the objective

---
 pypsa/optimization/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index dce737b..de4a221 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -314,7 +314,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
                 return None
             var = n.model.variables[f"{c}-{attr}"]
             opex = var * n.get_switchable_as_dense(c, "marginal_cost")
-            weights = get_weightings(n, c)
+            weights = n.snapshot_weightings["objective"]
             return self._aggregate_timeseries(opex, weights, agg=aggregate_time)
 
         return self._aggregate_components(
-- 
2.43.0


From cfdad154ce81e475ffe707b99a39167d08c5045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 114/134] fix: energy balance expressions of stores are made of
 their power

---
 pypsa/optimization/expressions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index de4a221..07dfee2 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -426,7 +426,10 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
-            var = self._get_operational_variable(c)
+            if c == "Store":  # the power, not the filling level
+                var = n.model.variables["Store-p"]
+            else:
+                var = self._get_operational_variable(c)
             # negative branch contributions are considered by the efficiency
             efficiency = port_efficiency(n, c, port=port, dynamic=True)
             sign = n.df(c).get("sign", 1.0)
-- 
2.43.0


From 747736f70c572997a4606ce8353130d5d531de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 115/134] fix: assign fixed capacities to their component in
 expressions

---
 pypsa/optimization/expressions.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 07dfee2..408f03a 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -171,13 +171,15 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
         """
         m = self._n.model
         attr = nominal_attrs[c]
-        fixed = self._n.df(c).query(f"~{attr}_extendable")[attr].rename_axis(c)
+        static = self._n.df(c)
+        fixed = static[attr].where(~static[f"{attr}_extendable"], 0).rename_axis(c)
         if f"{c}-{attr}" not in m.variables:
-            if not include_non_extendable or fixed.empty:
-                return None
-            return LinearExpression(fixed, m)
-        capacity = 1 * m.variables[f"{c}-{attr}"].rename({f"{c}-ext": c})
-        return capacity + fixed if include_non_extendable else capacity
+            return LinearExpression(fixed, m) if include_non_extendable else None
+        capacity = m.variables[f"{c}-{attr}"].rename({f"{c}-ext": c})
+        if not include_non_extendable:
+            return 1 * capacity
+        # align by label, linopy's addition only compares the sizes of the dimensions
+        return ln.merge([1 * capacity, LinearExpression(fixed, m)], join="outer")
 
     def capex(
         self,
-- 
2.43.0


From 835f32d683ccc0e25c4adb4065365eaa1cc0f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 116/134] fix: expressions over several ports must be added up
 by group

---
 pypsa/optimization/expressions.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 408f03a..6a32541 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -109,12 +109,21 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
     def _aggregate_components_concat_values(
         self, exprs: list[LinearExpression], agg: Callable | str
     ) -> LinearExpression:
-        res = ln.merge(exprs)
-        if not (index := res.indexes[res.dims[0]]).is_unique:
+        if len(exprs) == 1:
+            return exprs[0]
+        if "group" not in exprs[0].dims:
+            return ln.merge(exprs, join="outer")
+        res = ln.merge(exprs, dim="group")
+        if not (index := res.indexes["group"]).is_unique:
             if agg != "sum":
                 raise ValueError(f"Aggregation method {agg} not supported.")
-            non_unique_groups = pd.DataFrame(list(index), columns=index.names)
-            res = res.groupby(non_unique_groups).sum()
+            # use integers as a basis for the grouping
+            groups = pd.DataFrame(list(index), columns=index.names)
+            groups.index.name = "position"
+            data = res.data.reset_index("group", drop=True)
+            data = data.reset_coords(drop=True).rename(group="position")
+            res = LinearExpression(data.assign_coords(position=groups.index), res.model)
+            res = res.groupby(groups).sum()
         return res
 
     def _aggregate_components_concat_data(
-- 
2.43.0


From 000240d1f9ca457834f6f865d7cb69f8e7f6da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 117/134] fix: time series of filtered expressions

---
 pypsa/optimization/expressions.py |  7 ++++++-
 pypsa/statistics/abstract.py      | 11 ++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 6a32541..0c29d0f 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -82,6 +82,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
     def _concat_periods(self, exprs: dict[str, LinearExpression], c: str) -> Any:
         return ln.merge(list(exprs.values()), dim=c)
 
+    def _select_components(self, obj: Any, c: str, idx: pd.Index) -> Any:
+        return obj.loc[{c: idx}]
+
     @staticmethod
     def _aggregate_with_weights(
         expr: LinearExpression,
@@ -631,7 +634,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
         def func(n: Network, c: str, port: str) -> pd.Series:
             operation = self._get_operational_variable(c)
             weights = get_weightings(n, c)
-            return self._aggregate_timeseries(operation, weights, agg=aggregate_time)
+            return self._aggregate_timeseries(
+                1 * operation, weights, agg=aggregate_time
+            )
 
         return self._aggregate_components(
             func,
diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 912d075..618fbb8 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -323,6 +323,9 @@ class AbstractStatisticsAccessor(ABC):
 
         return self._concat_periods(per_period, c)
 
+    def _select_components(self, obj: Any, c: str, idx: pd.Index) -> Any:
+        return obj.loc[idx]
+
     def _filter_bus_carrier(
         self,
         n: Network,
@@ -336,7 +339,9 @@ class AbstractStatisticsAccessor(ABC):
         ports = n.static(c).loc[idx, f"bus{port}"]
         if bus_carrier is None:
             # links may have empty ports
-            return obj if (ports != "").all() else obj.loc[ports.index[ports != ""]]
+            if (ports != "").all():
+                return obj
+            return self._select_components(obj, c, ports.index[ports != ""])
 
         port_carriers = ports.map(n.buses.carrier)
         if isinstance(bus_carrier, str):
@@ -352,7 +357,7 @@ class AbstractStatisticsAccessor(ABC):
             )
         # links may have empty ports which results in NaNs
         mask = mask.where(mask.notnull(), False)
-        return obj.loc[ports.index[mask]]
+        return self._select_components(obj, c, ports.index[mask])
 
     def _filter_carrier(
         self,
@@ -380,4 +385,4 @@ class AbstractStatisticsAccessor(ABC):
                 f"Argument `carrier` must be a string or list, got {type(carrier)}"
             )
 
-        return obj.loc[carriers.index[mask]]
+        return self._select_components(obj, c, carriers.index[mask])
-- 
2.43.0


From f79032acf8cf3fc495060f3260a87e0e52afa12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 118/134] fix: aggregating expressions across components
 without variables or of one component

---
 pypsa/optimization/expressions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 0c29d0f..9de74db 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -155,8 +155,8 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
     ) -> LinearExpression:
         if agg != "sum":
             raise ValueError(f"Aggregation method {agg} not supported.")
-        if check_if_empty(expr):
-            return expr
+        if "group" not in expr.indexes or "component" not in expr.indexes["group"].names:
+            return expr  # empty, or of one component only
         group = expr.indexes["group"].to_frame().drop(columns="component").squeeze(axis=1)
         return expr.groupby(group).sum()
 
-- 
2.43.0


From 826aefe86e2b198ccf1e29f7773b90b23c2c07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 119/134] fix: inactive assets are not curtailed in expressions

---
 pypsa/optimization/expressions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 9de74db..70837e7 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -16,7 +16,7 @@ from packaging import version
 from xarray import DataArray
 
 from pypsa.common import pass_none_if_keyerror
-from pypsa.descriptors import nominal_attrs
+from pypsa.descriptors import get_activity_mask, nominal_attrs
 from pypsa.statistics import (
     get_transmission_branches,
     get_weightings,
@@ -585,7 +585,8 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             idx = capacity.indexes[c]
             p_max_pu = DataArray(n.get_switchable_as_dense(c, "p_max_pu")[idx])
             operation = self._get_operational_variable(c).loc[:, idx]
-            curtailment = capacity * p_max_pu - operation
+            active = DataArray(get_activity_mask(n, c)[idx].astype(int))
+            curtailment = (capacity * p_max_pu - operation) * active
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(curtailment, weights, agg=aggregate_time)
 
-- 
2.43.0


From a0baa2e2d2205d3dd86826b30107ebe7780b2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 120/134] fix: time series of expressions of one component

---
 pypsa/optimization/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 70837e7..ccbc4e0 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -136,7 +136,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             return LinearExpression(None, self._n.model)
         if is_one_component:
             first_key = next(iter(res))
-            return res[first_key].loc[first_key]
+            return res[first_key].loc[{"group": first_key}]
         return ln.merge(list(res.values()), dim="group")
 
     def _apply_option_kwargs(
-- 
2.43.0


From 351f38d2894761b1f2681edff10034ef148d56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 121/134] fix: clustered networks must not share the global
 constraints of the original

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c5a35b2..054348a 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -503,7 +503,7 @@ def get_clustering_from_busmap(
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-    clustered.global_constraints = n.global_constraints
+    clustered.global_constraints = n.global_constraints.copy()
 
     if with_time:
         clustered.set_snapshots(n.snapshots)
-- 
2.43.0


From eae2b79850d1a5cd577fe62ed2310671231ece2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 122/134] fix: only aggregate the generators at the given buses

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 054348a..fc0eacf 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -213,7 +213,7 @@ def aggregateoneport(
         to_aggregate = pd.Series(True, static.index)
 
     if buses is not None:
-        to_aggregate |= static.bus.isin(buses)
+        to_aggregate &= static.bus.isin(buses)
 
     static = static[to_aggregate]
     static = static.assign(bus=static.bus.map(busmap))
-- 
2.43.0


From c9f0cd41f955e23ee946b84c5fe7c8fd09854eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 123/134] fix: cluster all buses of links

---
 pypsa/clustering/spatial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index fc0eacf..bc8adce 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -564,11 +564,13 @@ def get_clustering_from_busmap(
                 if not df.empty:
                     io._import_series_from_df(clustered, df, c.name, attr)
 
-    new_links = (
-        n.links.assign(bus0=n.links.bus0.map(busmap), bus1=n.links.bus1.map(busmap))
-        .dropna(subset=["bus0", "bus1"])
-        .loc[lambda df: df.bus0 != df.bus1]
+    bus_columns = [f"bus{port}" for port in n.components["Link"].ports]
+    new_buses = n.links[bus_columns].apply(
+        lambda ds: ds.map(busmap).where(ds != "", "")  # links may have empty ports
     )
+    new_links = n.links.assign(**new_buses)
+    is_internal = new_buses.replace("", np.nan).nunique(axis=1) <= 1
+    new_links = new_links.dropna(subset=bus_columns).loc[~is_internal]
 
     new_links["length"] = np.where(
         new_links.length.notnull() & (new_links.length > 0),
-- 
2.43.0


From 33696f6edf181690600305f9a39ff69815d8fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 124/134] fix: cluster networks with time series of results

---
 pypsa/clustering/spatial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index bc8adce..63ae0bf 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -262,6 +262,8 @@ def aggregateoneport(
             if data.empty:
                 dynamic[attr] = data
                 continue
+            if attr not in n.static(c):
+                continue  # results do not hold for aggregated components
             strategy = dynamic_strategies[attr]
             data = n.get_switchable_as_dense(c, attr)
             aggregated = data.loc[:, to_aggregate]
@@ -366,6 +368,7 @@ def aggregatelines(
         custom_strategies = {}
     if bus_strategies is None:
         bus_strategies = {}
+    c = "Line"
     attrs = n.components["Line"]["attrs"]
     static = n.static("Line")
     idx = static.index[static.bus0.map(busmap) != static.bus1.map(busmap)]
@@ -431,6 +434,8 @@ def aggregatelines(
             if data.empty:
                 dynamic[attr] = data
                 continue
+            if attr not in n.static(c):
+                continue  # results do not hold for aggregated components
 
             strategy = dynamic_strategies[attr]
             data = n.get_switchable_as_dense("Line", attr, inds=idx)
-- 
2.43.0


From c253f47674de2999c657891d5a5339f95e308b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 125/134] fix: let optimised dispatch be followed by a power
 flow in any topology

---
 pypsa/optimization/abstract.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 88c65bb..c9be12a 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -740,14 +740,20 @@ def optimize_and_run_non_linear_powerflow(
         )
         return dict(status=status, terminantion_condition=condition)
 
-    for c in n.one_port_components:
-        n.dynamic(c)["p_set"] = n.dynamic(c)["p"].copy()
-    for c in {"Link"}:
-        n.dynamic(c)["p_set"] = n.dynamic(c)["p0"].copy()
-
-    n.generators.control = "PV"
+    # the set points of other snapshots remain as given
+    sns = as_index(n, snapshots, "snapshots")
+    for c in (n.one_port_components - {"ShuntImpedance"}) | {"Link"}:
+        p = n.dynamic(c)["p0" if c == "Link" else "p"]
+        p_set = n.get_switchable_as_dense(c, "p_set")
+        p_set.loc[sns] = p.reindex(columns=p_set.columns, fill_value=0.0).loc[sns]
+        n.dynamic(c)["p_set"] = p_set
+
+    # isolated buses and buses with links only are part of the power flow, too
+    n.determine_network_topology()
+    n.generators["control"] = "PV"
     for sub_network in n.sub_networks.obj:
-        n.generators.loc[sub_network.slack_generator, "control"] = "Slack"
+        if sub_network.slack_generator is not None:
+            n.generators.loc[sub_network.slack_generator, "control"] = "Slack"
     # Need some PQ buses so that Jacobian doesn't break
     for sub_network in n.sub_networks.obj:
         generators = sub_network.generators_i()
-- 
2.43.0


From fb404e5eca50dec14def82d3fedeccfe48625a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 126/134] fix: accept a line threshold of zero in the iterative
 expansion

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c9be12a..b816d4d 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -240,7 +240,7 @@ def optimize_transmission_expansion_iteratively(
         unit sizes and thresholds.
         """
         # TODO: move default value definition to main function (unnest)
-        line_threshold = line_threshold or 0.3
+        line_threshold = 0.3 if line_threshold is None else line_threshold
         link_threshold = link_threshold or {}
 
         if line_unit_size and len(ext_i):
-- 
2.43.0


From eef329de9f24bc85831a8264ecf29b0273dd914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 127/134] fix: do not round up capacities of whole units

---
 pypsa/optimization/abstract.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index b816d4d..708eaa2 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -105,7 +105,9 @@ def discretized_capacity(
             "The `min_units` parameter is deprecated and will be removed in future "
             "versions. Deprecated in version 0.32 and will be removed in version 1.0."
         )
-    units = nom_opt // unit_size + (nom_opt % unit_size >= threshold * unit_size)
+    # whole units are never rounded up
+    rest = nom_opt % unit_size
+    units = nom_opt // unit_size + (rest > 0 and rest >= threshold * unit_size)
 
     if min_units is not None:
         block_capacity = max(min_units, units) * unit_size
@@ -118,7 +120,8 @@ def discretized_capacity(
         if (nom_opt // unit_size + 1) * unit_size > nom_max:
             if (
                 fractional_last_unit_size
-                and ((nom_opt % unit_size) / (nom_max % unit_size)) >= threshold
+                and rest > 0
+                and (rest / (nom_max % unit_size)) >= threshold
             ):
                 return nom_max
             elif nom_max < unit_size:
-- 
2.43.0


From e63df64c71ff101c962520ae3e002766159cce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 128/134] fix: correct the sign of the tightened ramp down
 limit of started units

In the tightening of the linearised unit commitment by Hua et al. (2017),
p(t-1) - p(t) <= SD u(t-1) - (SD - RD) u(t) - (Pmin + RD - SD) v(t), the last
term had the wrong sign, which excluded starts of units below
2 (SD - RD) - Pmin.
---
 pypsa/optimization/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 3cefa21..025002b 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -354,7 +354,7 @@ def define_operational_constraints_for_committables(
             - p_ce
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
             + (ramp_shut_down_ce - ramp_down_limit_ce) * status_ce
-            - (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
+            + (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
-- 
2.43.0


From 2950ac5836c657f40a660a52da465dc80a601531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 129/134] fix: use the limits of the previous snapshot in the
 linearised unit commitment

The tightened limits of the output before a stop used the part loads of the
present snapshot, which excluded feasible schedules if these vary in time.
---
 pypsa/optimization/constraints.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 025002b..a2f312a 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -297,6 +297,8 @@ def define_operational_constraints_for_committables(
         # parameters
         upper_p_ce = upper_p.loc[:, cost_equal]
         lower_p_ce = lower_p.loc[:, cost_equal]
+        upper_p_before = upper_p_ce.shift(snapshot=1, fill_value=0)
+        lower_p_before = lower_p_ce.shift(snapshot=1, fill_value=0)
         ramp_shut_down_ce = ramp_shut_down.loc[cost_equal]
         ramp_start_up_ce = ramp_start_up.loc[cost_equal]
         ramp_up_limit_ce = ramp_up_limit.loc[cost_equal]
@@ -305,7 +307,7 @@ def define_operational_constraints_for_committables(
         lhs = (
             p_ce.shift(snapshot=1)
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
-            - (upper_p_ce - ramp_shut_down_ce) * (status_ce - start_up_ce)
+            - (upper_p_before - ramp_shut_down_ce) * (status_ce - start_up_ce)
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
@@ -335,9 +337,9 @@ def define_operational_constraints_for_committables(
         lhs = (
             p_ce
             - p_ce.shift(snapshot=1)
-            - (lower_p_ce + ramp_up_limit_ce) * status_ce
-            + lower_p_ce * status_ce.shift(snapshot=1)
-            + (lower_p_ce + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
+            - (lower_p_before + ramp_up_limit_ce) * status_ce
+            + lower_p_before * status_ce.shift(snapshot=1)
+            + (lower_p_before + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
-- 
2.43.0


From 41f4bb3d1fcbcc83924481385f449ee2b95843ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 130/134] fix: use ramp limit series in the linearised unit
 commitment

The tightened constraints used the static ramp limits even if series are given,
which override them, and excluded feasible schedules.
---
 pypsa/optimization/constraints.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index a2f312a..6f58bfe 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -166,8 +166,10 @@ def define_operational_constraints_for_committables(
     upper_p = max_pu * nominal
     min_up_time_set = n.static(c).min_up_time[com_i]
     min_down_time_set = n.static(c).min_down_time[com_i]
-    ramp_up_limit = nominal * n.static(c).ramp_limit_up[com_i].fillna(1)
-    ramp_down_limit = nominal * n.static(c).ramp_limit_down[com_i].fillna(1)
+    ramp_up_limit = get_as_dense(n, c, "ramp_limit_up", sns).reindex(columns=com_i)
+    ramp_up_limit = DataArray(ramp_up_limit.fillna(1)) * nominal
+    ramp_down_limit = get_as_dense(n, c, "ramp_limit_down", sns).reindex(columns=com_i)
+    ramp_down_limit = DataArray(ramp_down_limit.fillna(1)) * nominal
     ramp_start_up = nominal * n.static(c).ramp_limit_start_up[com_i]
     ramp_shut_down = nominal * n.static(c).ramp_limit_shut_down[com_i]
     up_time_before_set = n.static(c)["up_time_before"].reindex(com_i)
@@ -301,8 +303,8 @@ def define_operational_constraints_for_committables(
         lower_p_before = lower_p_ce.shift(snapshot=1, fill_value=0)
         ramp_shut_down_ce = ramp_shut_down.loc[cost_equal]
         ramp_start_up_ce = ramp_start_up.loc[cost_equal]
-        ramp_up_limit_ce = ramp_up_limit.loc[cost_equal]
-        ramp_down_limit_ce = ramp_down_limit.loc[cost_equal]
+        ramp_up_limit_ce = ramp_up_limit.loc[:, cost_equal]
+        ramp_down_limit_ce = ramp_down_limit.loc[:, cost_equal]
 
         lhs = (
             p_ce.shift(snapshot=1)
-- 
2.43.0


From 51ef06393476fbd5f659adc53aaeb13b3ebcdb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 131/134] fix: copy and slice networks with changed or missing
 standard types

Copies of selected snapshots and slices took the default standard types instead
of those of the network: changes were lost, and networks without some of the
standard types raised KeyError.
---
 pypsa/networks.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 4c1389f..f309898 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1550,7 +1550,8 @@ class Network:
             snapshots_ = pd.Index([], name="snapshot")
 
         # Setup new network
-        n = self.__class__(ignore_standard_types=ignore_standard_types)
+        # Standard types are copied from the network, where they can be changed
+        n = self.__class__(ignore_standard_types=True)
 
         n.crs = self.crs
 
@@ -1558,16 +1559,7 @@ class Network:
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
         # Needs to copy buses and carriers first, since there are dependencies on them
         for component in self.iterate_components(["Bus", "Carrier"] + other_comps):
-            # Drop the standard types to avoid them being read in twice
-            if (
-                not ignore_standard_types
-                and component.name in self.standard_type_components
-            ):
-                static = component.static.drop(
-                    n.components[component.name]["standard_types"].index
-                )
-            else:
-                static = component.static
+            static = component.static
             n.add(component.name, static.index, **static)
 
         # Copy time-varying data, if given
@@ -1643,7 +1635,7 @@ class Network:
             key = [key]
 
         # Setup new network
-        n = self.__class__()
+        n = self.__class__(ignore_standard_types=True)
         n.crs = self.crs
 
         n.add(
@@ -1655,19 +1647,12 @@ class Network:
 
         rest_components = (
             self.all_components
-            - self.standard_type_components
             - self.one_port_components
             - self.branch_components
         )
         for c in rest_components - {"Bus", "SubNetwork"}:
             n.add(c, pd.DataFrame(self.static(c)).index, **pd.DataFrame(self.static(c)))
 
-        for c in self.standard_type_components:
-            static = pd.DataFrame(
-                self.static(c).drop(self.components[c]["standard_types"].index)
-            )
-            n.add(c, static.index, **static)
-
         for c in self.one_port_components:
             static = pd.DataFrame(self.static(c).loc[lambda df: df.bus.isin(buses_i)])
             n.add(c, static.index, **static)
-- 
2.43.0


From 8f15bc4d1177b9f5771f194ed7d01021e7bc5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 132/134] fix: merge custom line and transformer types

Merging networks dropped the types of the other network, so that its lines and
transformers referred to types which do not exist.
---
 pypsa/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index c62d809..db6c1eb 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1718,6 +1718,11 @@ def merge(
             "Spatial Reference System Indentifier of networks do not agree: "
             f"{new.srid}, {other.srid}. Assuming {new.srid}."
         )
+    # types which only the other network has
+    for c_name in new.standard_type_components.difference(components_to_skip or ()):
+        types = other.static(c_name)
+        types = types.loc[types.index.difference(new.static(c_name).index, sort=False)]
+        new.add(c_name, types.index, **types)
     for c in other.iterate_components(to_iterate_list):
         new.add(c.name, c.static.index, **c.static)
         if with_time:
-- 
2.43.0


From 4e8b863dfb446d3a97f0b0fc9cadb3a2a991c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 133/134] fix: export networks without some of the standard
 types

Exporting raised KeyError if a standard type had been removed or the network was
created with ignore_standard_types.
---
 pypsa/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index db6c1eb..5f6fa6a 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -824,7 +824,9 @@ def _export_to_exporter(
             static = pd.DataFrame(static).assign(geometry=static["geometry"].to_wkt())
 
         if not export_standard_types and component in n.standard_type_components:
-            static = static.drop(n.components[component]["standard_types"].index)
+            static = static.drop(
+                n.components[component]["standard_types"].index, errors="ignore"
+            )
 
         # remove what an earlier export left for this component
         exporter.remove_static(list_name)
-- 
2.43.0


From 6ccb14aa2c12b7e7c475e0e4e510bb362a8580b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:38 +0000
Subject: [PATCH 134/134] fix: weightings from timedelta with a single snapshot

The hours of a single snapshot are unknown and became missing values; they are
now the default.
---
 pypsa/networks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index f309898..b6776ed 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -765,6 +765,7 @@ class Network:
                 .shift(-1)
                 .ffill()  # fill last value by assuming same as the one before
                 .apply(lambda x: x.total_seconds() / 3600)
+                .fillna(default_snapshot_weightings)  # a single snapshot
             )
             self._snapshot_weightings = pd.DataFrame(
                 {c: hours_per_step for c in self._snapshot_weightings.columns}
-- 
2.43.0

