From 3f7b854f9031a101ad827e2d6d2a708d1371076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 01/18] fix: accumulate cumulative triangles in development
 order with one amount per cell

---
 trikit/triangle.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..4d668e2 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -461,10 +461,15 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        self._validate(data, origin=origin, dev=dev, value=value)
+        origin = "origin" if origin is None else origin
+        dev = "dev" if dev is None else dev
+        value = "value" if value is None else value
+
+        # Aggregate and order by development period, then accumulate by origin.
+        data = data.groupby([origin, dev], as_index=False)[[value]].sum()
+        data = data.sort_values(by=[origin, dev]).reset_index(drop=True)
+        data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
@@ -1374,7 +1379,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
+            df = data.groupby([origin, dev], as_index=False)[[value]].sum()
+            df = df.sort_values(by=[origin, dev]).rename({value: "cum"}, axis=1)
             df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
             df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
             df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
-- 
2.43.0


From 3971ba78407cc6317589c314c89d4bb594502356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 02/18] fix: do not modify the data passed to the triangle
 constructors

---
 trikit/triangle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 4d668e2..e159ab8 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -118,6 +118,7 @@ class _BaseTriangle(pd.DataFrame):
         Convert any first development period negative values to 1.0.
         """
         min_devp = data[dev].min()
+        data = data.copy(deep=True)
         data[value] = data.apply(lambda rec: 1 if
             rec[dev] == min_devp and rec[value] <= 0 else rec[value], axis=1)
         return(data)
-- 
2.43.0


From 30cc20e2cd26f7e167e445fb7e36b427f9506644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 03/18] fix: honour the origin, dev and value names of a
 triangle in its accessors and conversions

---
 trikit/estimators/bootstrap.py | 4 +++-
 trikit/triangle.py             | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..428fb92 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,9 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri.to_tbl(dropna=False).rename(
+            {self.tri.origin: "origin", self.tri.dev: "dev", self.tri.value: "value"}, axis=1
+            ).drop("value", axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index e159ab8..468889f 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -211,10 +211,11 @@ class _BaseTriangle(pd.DataFrame):
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
+                {0: self.dev, "index": self.origin}, axis=1)
             self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
                 {self.value: "latest"}, axis=1)
-            self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
+            self._latest = self._latest[[self.origin, self.dev, "latest"]].rename(
+                {self.origin: "origin", self.dev: "dev"}, axis=1).sort_index()
         return(self._latest)
 
 
@@ -348,7 +349,7 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
-        tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+        tri = self.reset_index(drop=False).rename({"index": self.origin}, axis=1)
         df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
         if dropna:
             df = df[~np.isnan(df[self.value])]
@@ -433,7 +434,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
 
 
 
-- 
2.43.0


From 4180f27bd82d0f1ecd08bbdc8554148aee812358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 04/18] fix: ignore origin, dev and value for triangle-shaped
 data as documented

---
 trikit/triangle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 468889f..854c858 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1359,6 +1359,10 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     """
     if data_shape == "triangle":
 
+        # Field names are ignored for triangle-shaped data.
+        origin, dev, value = "origin", "dev", "value"
+        data = data.rename_axis(index=None, columns=None)
+
         if data_format.lower().strip().startswith("i"):
             # data is in incremental triangle format (but not typed as such).
             incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
@@ -1373,7 +1377,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
         else:
-            raise NameError("Invalid data_format argument: `{}`.".format(tri_type))
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
 
         df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
-- 
2.43.0


From 188247957d64a8be5c5c9ef67bec40e53d3c083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 05/18] fix: reject an invalid tri_type with a NameError

---
 trikit/triangle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 854c858..5561f17 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1416,4 +1416,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
                 if triind_val == 0:
                     if np.isnan(tri.iat[origin_indx, devp_indx]):
                         tri.iat[origin_indx, devp_indx] = tri.iat[origin_indx, (devp_indx - 1)]
+    else:
+        raise NameError("Invalid tri_type argument: `{}`.".format(tri_type))
+
     return(tri)
-- 
2.43.0


From fdb302bc9c810f0efdf537d40e6d007ec147a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 06/18] fix: allow a2aind to be set before it is first read

---
 trikit/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 5561f17..9321ce3 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -701,7 +701,7 @@ class _BaseCumTriangle(_BaseTriangle):
             1989  1  0  0  0  0  0  0  0  0
         """
         indx, column, value = update_spec
-        self._a2aind.at[indx, column] = value
+        self.a2aind.at[indx, column] = value
 
 
     @property
-- 
2.43.0


From ab92ee1b9425ab4b7809db3181fc4d8bdf975544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 07/18] fix: medial average of an empty selection is missing

---
 trikit/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 9321ce3..055f40f 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -557,7 +557,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.shape[0] == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
-- 
2.43.0


From b6fb69d609888a52f14a3a9866b5e39e99811328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 08/18] fix: volume-weighted averages leave out the excluded
 link ratios

---
 trikit/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 055f40f..f676851 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -832,6 +832,10 @@ class _BaseCumTriangle(_BaseTriangle):
                         first_cell_indx = (final_cell_indx - duration) if \
                             (final_cell_indx - duration) >= 0 else 0
 
+                    # Drop origins excluded by self.a2aind.
+                    incl = self.a2aind.iloc[:, col].reindex(self.index, fill_value=0)
+                    t_ic_1, t_ic_2 = t_ic_1 * incl, t_ic_2 * incl
+
                     # Divide sum of t_ic_2 by t_ic_1.
                     sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
                     sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
-- 
2.43.0


From 6fe24e9b1670228cfeccc00836486c5474e5418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 09/18] fix: leave a pd.Series of custom factors unchanged and
 use it as given

---
 trikit/estimators/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..f2618fb 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,9 +103,12 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
-                increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
-                sel.loc[sel.index.max() + increment] = tail
+                # Append tail factor to a copy of sel, matched by development
+                # period when sel is labelled with them, else by position.
+                ages = self.tri.devp.values
+                if set(sel.index) == set(ages[:-1]):
+                    sel = sel.reindex(ages[:-1])
+                sel = pd.Series(np.append(sel.values, tail), index=ages, dtype=float)
 
             elif isinstance(sel, (Sequence, np.ndarray)):
                 sel = np.asarray(sel, dtype=float)
-- 
2.43.0


From fa2e01f00ad391f815da2105669ad44808f2a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 10/18] fix: label the tail factor with the last development
 period

---
 trikit/estimators/base.py | 3 +--
 trikit/estimators/mack.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index f2618fb..5d24e73 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -175,8 +175,7 @@ class BaseChainLadder:
         """
         # Determine index for tail factor.
         ldfs = self.tri.a2a_avgs().loc[sel]
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.iloc[-1]] = tail
         return(pd.Series(ldfs, name="ldf").sort_index())
 
 
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..e12f6b6 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -267,8 +267,7 @@ class MackChainLadder(BaseRangeEstimator):
         """
         C, w = self.mod_tri, self.mod_a2aind
         ldfs = (self.tri.a2a * w * C**alpha).sum(axis=0) / (w * C**alpha).sum(axis=0)
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.iloc[-1]] = tail
         return(ldfs)
 
 
-- 
2.43.0


From a5c9cd56debcb4ba1d4cdc7a731816cff29c37cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 11/18] fix: find the first development period of the forecasts
 from the data

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 428fb92..714033c 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -599,7 +599,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == dfsqrd["dev"].values.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From 8143173030b4e4e00c749ef2699db958470db014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 12/18] fix: accept numpy integers as random_state

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 714033c..b616610 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -464,7 +464,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
@@ -655,7 +655,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         """
         # Initialize pseudo random number generator.
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
-- 
2.43.0


From 6ed3b0c9c6f26fe296d3b8b695e6e20725b9814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 13/18] fix: residuals_detail with current scipy

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index b616610..b400a1a 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -945,7 +945,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit", keepdims=True).mode[0]
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -958,7 +958,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit", keepdims=True).mode[0]
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From edd3fa75dd8bbc8e3b6e0001a7bc2f89924b7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 14/18] fix: ordinal suffix of the 11th, 12th and 13th
 percentile

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 5d24e73..8063b3f 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -683,7 +683,8 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             "{:.5f}".format(ii).rstrip("0").rstrip(".") for ii in 100 * qtls
             ]
         qtlhdrs = [
-            ii + "th" if "." in ii else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
+            ii + "th" if "." in ii or ii[-2:] in ("11", "12", "13") else ii + self.dsuffix[ii[-1]]
+                for ii in qtlhdrs
             ]
         return(qtls.tolist(), qtlhdrs)
 
-- 
2.43.0


From f6e6f3f7fc179c4dfccf95f7f29fbb8afda2a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 15/18] fix: calendar year table for unevenly spaced labels

---
 trikit/estimators/mack.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index e12f6b6..1baf7cc 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -746,8 +746,6 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dflvi = self.tri.a2a_lvi
         dfhl = self.tri.a2a_assignment
         dflvi = dflvi.reset_index(drop=False).rename({"index": "dev"}, axis=1)
-        devpinc = dflvi["dev"].diff(1).dropna().unique().item()
-        origininc = dflvi["origin"].diff(-1).dropna().unique().item()
         diag_indx = sorted(list(enumerate(dflvi["dev"].values[::-1], start=1)), key=lambda v: v[-1])
         dfhl2 = dfhl.reset_index(drop=False).rename({"index": "origin"}, axis=1).melt(
             id_vars=["origin"], var_name=["dev"]).dropna(subset=["value"])
-- 
2.43.0


From eeda07f557c4170ef8e661065d5752b006f61666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 16/18] fix: hist leaves the reserve distribution unchanged

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index b400a1a..b6165ce 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1329,7 +1329,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy(deep=True)
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0


From 5d9fd0d68689d1fa9cbf0ac94f824c08ad0f1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 17/18] fix: Mack plot and diagnostics use the columns they are
 given

---
 trikit/estimators/mack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 1baf7cc..7f4adea 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -901,7 +901,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
@@ -1013,7 +1013,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
 
         # Upper right facet represents Chain Ladder development paths (trisqrd).
         for ii, hex_color, dforg in zip(range(len(colors_hex)), colors_hex, data_list):
-            xx = dforg["devp"].values
+            xx = dforg["dev"].values
             yy = dforg["value"].values
             marker = self._markers[ii % len(self._markers)]
             yy_divisor = 1  # 1000 if np.all(yy>1000) else 1
@@ -1032,8 +1032,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         ax[0, 1].set_xlabel("dev", fontsize=8)
         ax[0, 1].set_ylabel(yy_axis_label, fontsize=7)
         ax[0, 1].set_ylim(bottom=0)
-        ax[0, 1].set_xlim(left=cl_data["devp"].min())
-        ax[0, 1].set_xticks(np.sort(cl_data["devp"].unique()))
+        ax[0, 1].set_xlim(left=cl_data["dev"].min())
+        ax[0, 1].set_xticks(np.sort(cl_data["dev"].unique()))
         ax[0, 1].tick_params(axis="x", which="major", direction="in", labelsize=6)
         ax[0, 1].tick_params(axis="y", which="major", direction="in", labelsize=6)
         ax[0, 1].xaxis.set_ticks_position("none")
-- 
2.43.0


From 7289693b04039ab0ac2b6670e123fb239f936849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 18/18] fix: carry amounts forward over every interior gap of
 an origin

---
 trikit/triangle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index f676851..65b7cbf 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1420,9 +1420,15 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
             for devp_indx, devp_ in enumerate(tri.columns[1:], start=1):
                 triind_val = tri.triind.iat[origin_indx, devp_indx]
+                if tri.iloc[origin_indx, devp_indx:].notnull().any():
+                    triind_val = 0
                 if triind_val == 0:
                     if np.isnan(tri.iat[origin_indx, devp_indx]):
                         tri.iat[origin_indx, devp_indx] = tri.iat[origin_indx, (devp_indx - 1)]
+
+        # Filled cells can move the last valid origin of a development period.
+        tri._clvi = tri._triind = None
+
     else:
         raise NameError("Invalid tri_type argument: `{}`.".format(tri_type))
 
-- 
2.43.0

