From 5fb748ae6d1eec9951724967f65ebd309afe2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 01/36] fix: repeat observed factors over mixture components in
 sigma points

Models with observed factors and more than one mixture component crashed
with a reshape error in the predict step.
---
 skillmodels/kalman_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -261,7 +261,7 @@ def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factor
     sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
     sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
 
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
         n_obs, n_mixtures, n_sigma, n_observed
     )
 
-- 
2.43.0


From 80276230c74c8ef98c0a65ffa13ce9c7973e1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 02/36] fix: estimation_options are optional in get_dimensions

The documentation and the defaults in _process_estimation_options treat the
entry as optional but get_dimensions raised a KeyError without it.
---
 skillmodels/process_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..d260192 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -75,7 +75,7 @@ def get_dimensions(model_dict):
         "n_periods": max(all_n_periods),
         # plus 1 for the constant
         "n_controls": len(model_dict.get("controls", [])) + 1,
-        "n_mixtures": model_dict["estimation_options"].get("n_mixtures", 1),
+        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
     }
     dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
     return dims
-- 
2.43.0


From d8113c98a9e58757a5ad1123938f8f60f1c61763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 03/36] fix: assign anchoring parameters to the factor they
 belong to

If the order of anchoring["outcomes"] differed from the order of the factors,
the anchoring scaling factors and constants were assigned to the wrong factors.
---
 skillmodels/parse_params.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 382dd30..806a99d 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -63,10 +63,12 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
     is_anchoring = (update_info["purpose"] == "anchoring").to_numpy().reshape(-1, 1)
     is_anchoring_loading = jnp.array(is_free_loading & is_anchoring)
     parsing_info["is_anchoring_loading"] = is_anchoring_loading
-    parsing_info["is_anchored_factor"] = jnp.array(
-        update_info.query("purpose == 'anchoring'")[labels["latent_factors"]].any(
-            axis=0
-        )
+    # The anchoring updates of each period have the order of anchoring["outcomes"],
+    # which can differ from the order of the factors.
+    anchoring_rows = is_free_loading[is_anchoring.flatten()]
+    n_anchored = anchoring_rows.any(axis=0).sum()
+    parsing_info["anchored_factor_positions"] = jnp.array(
+        anchoring_rows[:n_anchored].argmax(axis=1)
     )
     parsing_info["is_anchoring_update"] = is_anchoring.flatten()
     parsing_info["ignore_constant_when_anchoring"] = anchoring[
@@ -219,7 +221,7 @@ def _get_anchoring_scaling_factors(loadings, info, dimensions):
     free_anchoring_loadings = loadings[info["is_anchoring_loading"]].reshape(
         dimensions["n_periods"], -1
     )
-    scaling_factors = scaling_factors.at[:, info["is_anchored_factor"]].set(
+    scaling_factors = scaling_factors.at[:, info["anchored_factor_positions"]].set(
         free_anchoring_loadings
     )
 
@@ -243,7 +245,7 @@ def _get_anchoring_constants(controls, info, dimensions):
         values = controls[:, 0][info["is_anchoring_update"]].reshape(
             dimensions["n_periods"], -1
         )
-        constants = constants.at[:, info["is_anchored_factor"]].set(values)
+        constants = constants.at[:, info["anchored_factor_positions"]].set(values)
 
     constants_for_observed = jnp.zeros(
         (dimensions["n_periods"], dimensions["n_observed_factors"])
-- 
2.43.0


From 67aae79c8efc54b8171bd3bfb766d51108a6ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 04/36] fix: do not interpolate factor names into query strings

Any string is documented to be a possible factor name but quotes broke the
parsing of transition parameters and spaces broke the correlation functions.
---
 skillmodels/correlation_heatmap.py | 19 ++++++++++---------
 skillmodels/parse_params.py        |  6 ++++--
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 18471b4..eda708d 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -297,9 +297,7 @@ def _get_measurement_data_for_single_period(
     measurements = []
 
     for fac in latent_factors:
-        measurements += period_info.query(
-            f"{fac} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        measurements += _get_factor_measurements(period_info, fac)
     for fac in observed_factors:
         measurements.append(fac)
     df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
@@ -397,9 +395,7 @@ def _get_quasi_factor_scores_data_for_single_period(
     period_info = update_info.loc[period].reset_index()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = _get_factor_measurements(period_info, factor)
         df = data.query(f"{update_info.index.names[0]}=={period}")[
             period_factor_measurements
         ]
@@ -515,9 +511,7 @@ def _get_factor_scores_data_for_single_period(
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = _get_factor_measurements(period_info, factor)
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
@@ -569,6 +563,13 @@ def _get_factor_scores_data_for_multiple_periods(
     return df
 
 
+def _get_factor_measurements(period_info, factor):
+    """Get list of the measurements of a factor."""
+    is_measurement = period_info["purpose"] == "measurement"
+    is_relevant = period_info[factor].astype(bool) & is_measurement
+    return period_info.loc[is_relevant, "variable"].to_list()
+
+
 def _process_factors(model, factors):
     "Process factors to get a tuple of lists."
     if not factors:
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 806a99d..5a647c3 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -52,8 +52,10 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
     # "trans_coeffs"
     pos_dict = {}
     for factor in labels["latent_factors"]:
-        helper = pd.DataFrame(index=params_index)
-        loc = helper.query(f"category == 'transition' & name1 == '{factor}'").index
+        is_factor_param = (params_index.get_level_values("category") == "transition") & (
+            params_index.get_level_values("name1") == factor
+        )
+        loc = params_index[is_factor_param]
         pos_dict[factor] = _get_positional_selector_from_loc(range_sr, loc)
 
     parsing_info["transition"] = pos_dict
-- 
2.43.0


From 87fbfd014e1b6fe6a400c6059c907af331f78e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 05/36] fix: enumerate the periods and ids that occur in the
 data

The levels of a MultiIndex can contain unused or unsorted entries, for example
after filtering a DataFrame. Enumerating the levels shifted the data to wrong
periods in that case.
---
 skillmodels/process_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..be96148 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -65,9 +65,10 @@ def pre_process_data(df, periods):
     df["__old_period__"] = df.index.get_level_values(1)
 
     # replace existing codes for periods and
-    df.index.names = ["id", "period"]
-    for level in [0, 1]:
-        df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
+    codes = [
+        pd.factorize(df.index.get_level_values(level), sort=True)[0] for level in [0, 1]
+    ]
+    df.index = pd.MultiIndex.from_arrays(codes, names=["id", "period"])
 
     # create new index
     ids = sorted(df.index.get_level_values("id").unique())
-- 
2.43.0


From b37698ba3fcc4c4afd28372ffe567710e0fec125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 06/36] fix: data can contain a column called period

DataFrame.query gives columns precedence over index levels of the same name.
Thus the original period labels in a column were mistaken for the period.
---
 skillmodels/correlation_heatmap.py | 17 ++++++++++++-----
 skillmodels/process_data.py        | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index eda708d..f1d0498 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -300,7 +300,7 @@ def _get_measurement_data_for_single_period(
         measurements += _get_factor_measurements(period_info, fac)
     for fac in observed_factors:
         measurements.append(fac)
-    df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
+    df = _select_period(data, update_info.index.names[0], period)[measurements]
     return df
 
 
@@ -396,7 +396,7 @@ def _get_quasi_factor_scores_data_for_single_period(
     to_concat = []
     for factor in latent_factors:
         period_factor_measurements = _get_factor_measurements(period_info, factor)
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
+        df = _select_period(data, update_info.index.names[0], period)[
             period_factor_measurements
         ]
         df = (df - df.mean()) / df.std()
@@ -404,7 +404,7 @@ def _get_quasi_factor_scores_data_for_single_period(
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _select_period(data, update_info.index.names[0], period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
@@ -515,7 +515,7 @@ def _get_factor_scores_data_for_single_period(
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
+        df = _select_period(data, update_info.index.names[0], period)[
             period_factor_measurements
         ]
         for m in period_factor_measurements:
@@ -524,7 +524,7 @@ def _get_factor_scores_data_for_single_period(
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _select_period(data, update_info.index.names[0], period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
@@ -563,6 +563,13 @@ def _get_factor_scores_data_for_multiple_periods(
     return df
 
 
+def _select_period(data, name, period):
+    """Select a period. Index levels have precedence over columns."""
+    in_index = name in data.index.names
+    periods = data.index.get_level_values(name) if in_index else data[name]
+    return data[periods == period]
+
+
 def _get_factor_measurements(period_info, factor):
     """Get list of the measurements of a factor."""
     is_measurement = period_info["purpose"] == "measurement"
diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index be96148..2306207 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -80,6 +80,11 @@ def pre_process_data(df, periods):
     return df
 
 
+def _select_period(df, period):
+    # do not use query because a column called "period" would have precedence
+    return df[df.index.get_level_values("period") == period]
+
+
 def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
@@ -91,7 +96,7 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
 def _check_data(df, update_info, labels, purpose):
     var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
     for period in labels["periods"]:
-        period_data = df.query(f"period == {period}")
+        period_data = _select_period(df, period)
         for cont in labels["controls"]:
             if cont not in period_data.columns or period_data[cont].isnull().all():
                 var_report.loc[(period, cont), "problem"] = "Variable is missing"
@@ -122,7 +127,7 @@ def _handle_controls_with_missings(df, controls, update_info):
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
     for period in periods:
-        period_data = df.query(f"period == {period}")
+        period_data = _select_period(df, period)
         control_data = period_data[controls]
         meas_data = period_data[get_period_measurements(update_info, period)]
         problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
@@ -140,21 +145,20 @@ def _handle_controls_with_missings(df, controls, update_info):
 def _generate_measurements_array(df, update_info, n_obs):
     arr = np.zeros((len(update_info), n_obs))
     for k, (period, var) in enumerate(update_info.index):
-        arr[k] = df.query(f"period == {period}")[var].to_numpy()
+        arr[k] = _select_period(df, period)[var].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_controls_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
+        arr[period] = _select_period(df, period)[labels["controls"]].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_observed_factor_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[
-            labels["observed_factors"]
-        ].to_numpy()
+        period_data = _select_period(df, period)
+        arr[period] = period_data[labels["observed_factors"]].to_numpy()
     return jnp.array(arr)
-- 
2.43.0


From 831f9f262ae6e62a26b919e1a09c7fc2567d1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 07/36] fix: keep observed factors when measurements are
 dropped

Observations with missing controls had their observed factors set to NaN, which
made the likelihood NaN.
---
 skillmodels/process_data.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 2306207..6b0192e 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -34,7 +34,9 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
+    df = _handle_controls_with_missings(
+        df, labels["controls"], update_info, labels["observed_factors"]
+    )
     if purpose == "estimation":
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
@@ -122,7 +124,7 @@ def _check_data(df, update_info, labels, purpose):
         raise ValueError(var_report)
 
 
-def _handle_controls_with_missings(df, controls, update_info):
+def _handle_controls_with_missings(df, controls, update_info, observed_factors=()):
     df = df.copy(deep=True)
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
@@ -138,7 +140,9 @@ def _handle_controls_with_missings(df, controls, update_info):
         msg = "Set measurements to NaN because there are NaNs in the controls for:\n{}"
         msg = msg.format(list(map(tuple, old_names.to_numpy().tolist())))
         warnings.warn(msg)
-        df.loc[problematic_index] = np.nan
+        # observed factors are not measurements and enter the transition functions
+        to_nan = [col for col in df.columns if col not in observed_factors]
+        df.loc[problematic_index, to_nan] = np.nan
     return df
 
 
-- 
2.43.0


From c5e743775d5a14eaf3e005b79fea81a0be0c6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 08/36] fix: correct ids in debug data of models with mixtures

---
 skillmodels/process_debug_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..aa2a47a 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -95,7 +95,7 @@ def _create_post_update_states(filtered_states, factors, update_info):
     for (period, meas), data in zip(update_info.index, filtered_states):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(data.shape[0]).repeat(data.shape[1])
         df["measurement"] = meas
         to_concat.append(df)
 
@@ -164,7 +164,7 @@ def _process_residuals(residuals, update_info):
         df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
     return pd.concat(to_concat)
-- 
2.43.0


From 7e1831985dcd203e15f86af5b1152e312f95a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 09/36] fix: filtered states of periods without measurements

Periods that only have anchoring updates raised an IndexError.
---
 skillmodels/process_debug_data.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index aa2a47a..e6022de 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -125,17 +125,19 @@ def _create_filtered_states(filtered_states, log_mixture_weights, update_info, f
 
     agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
 
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
-
-        if measurement == last_measurement:
-            keep.append(i)
+    # position of the last measurement of each period. Periods without measurements
+    # are represented by their last anchoring update.
+    update_periods = update_info.index.get_level_values("period")
+    is_measurement = (update_info["purpose"] == "measurement").to_numpy()
+    keep = {}
+    for period in update_periods.unique():
+        is_candidate = update_periods == period
+        if is_measurement[is_candidate].any():
+            is_candidate = is_candidate & is_measurement
+        keep[period] = np.flatnonzero(is_candidate)[-1]
 
     to_concat = []
-    for period, i in enumerate(keep):
+    for period, i in keep.items():
         df = pd.DataFrame(data=agg_states[i], columns=factors)
         df["period"] = period
         df["id"] = np.arange(len(df))
-- 
2.43.0


From 8623095c2a0411d8baa7a4b8ef9270cac641fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 10/36] fix: combine several observed factors in distribution
 plots

The observed factors were stacked into one unnamed column.
---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..e2a0f51 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -629,7 +629,7 @@ def _get_data_observed_factors(data, factors):
         if fac in data:
             to_concat.append(data[fac])
     if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+        observed_states = pd.concat(to_concat, axis=1)
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 218b8e57bf9ce3323fc3eff513388d20ae207a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 11/36] fix: axes of bivariate density contours

Plotly interprets the rows of z as y values and the columns as x values. The
contours were mirrored at the diagonal.
---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index e2a0f51..2f40b1b 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -341,7 +341,8 @@ def bivariate_density_contours(
                 contour = go.Contour(
                     x=x[:, 0],
                     y=y[0, :],
-                    z=z,
+                    # the rows of z correspond to y values in contour plots
+                    z=z.T,
                     line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
                 )
                 fig.add_trace(contour)
-- 
2.43.0


From 00d67f06a92963bd53ba36eb4e6877a029891746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 12/36] fix: do not modify the factor_mapping of the caller

The processing of the mapping added the names of unmapped factors.
---
 skillmodels/visualize_factor_distributions.py | 1 +
 skillmodels/visualize_transition_equations.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 2f40b1b..e10cda9 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -596,6 +596,7 @@ def _process_factor_mapping_dist(mapper, factors):
     if mapper is None:
         mapper = {fac: fac for fac in factors}
     else:
+        mapper = dict(mapper)
         for fac in factors:
             if fac not in mapper:
                 mapper[fac] = fac
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..fb9bd48 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -473,6 +473,7 @@ def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
     if factor_mapper is None:
         factor_mapper = {fac: fac for fac in all_factors}
     else:
+        factor_mapper = dict(factor_mapper)
         for fac in all_factors:
             if fac not in factor_mapper:
                 factor_mapper[fac] = fac
-- 
2.43.0


From 64d144a6ed818b3bc14dce24a496d56ac7f512e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 13/36] fix: color range of heatmaps with missing or trimmed
 entries

zmax was NaN with missing correlations. For trimmed heatmaps, the lower triangle
of the remaining array was used which could be empty and misses entries.
---
 skillmodels/correlation_heatmap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index f1d0498..23c51a2 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -729,7 +729,14 @@ def _get_heatmap_kwargs(
 
     """
     if zmax is None:
-        zmax = np.abs(corr.to_numpy())[np.tril_indices_from(corr, k=-1)].max()
+        # missing correlations and correlations of variables with themselves do not
+        # determine the range of the colors. The rows and columns of trimmed heatmaps
+        # can differ.
+        abs_corr = np.abs(corr.to_numpy())
+        is_relevant = np.isfinite(abs_corr) & np.not_equal.outer(
+            corr.index.to_numpy(), corr.columns.to_numpy()
+        )
+        zmax = abs_corr.max(where=is_relevant, initial=0)
     if zmin is None:
         zmin = -zmax
     if zmid is None:
-- 
2.43.0


From 2859aade7ad8d23c7cfc19a7e813834b818c4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 14/36] fix: add_bounds does not add rows to the params
 template

If there are no shock_sds, setting their lower bound added a row.
---
 skillmodels/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 6e4ae29..37a92b3 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -63,8 +63,8 @@ def add_bounds(params_df, bounds_distance=0.0):
         )
         if "lower_bound" not in df.columns:
             df["lower_bound"] = -np.inf
-        df.loc["meas_sds", "lower_bound"] = bounds_distance
-        df.loc["shock_sds", "lower_bound"] = bounds_distance
+        is_sd = df.index.get_level_values(0).isin(["meas_sds", "shock_sds"])
+        df.loc[is_sd, "lower_bound"] = bounds_distance
 
         cholcov_index = df.query("category == 'initial_cholcovs'").index.tolist()
         ind_tups = [tup for tup in cholcov_index if _is_diagonal_entry(tup)]
-- 
2.43.0


From dbef2cd5628816de19f3e8518064af0b864c0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 15/36] fix: simulate models that have periods without
 measurements

Such periods raised a KeyError.
---
 skillmodels/simulate_data.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 1b662fb..345c102 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -237,16 +237,19 @@ def _simulate_dataset(
     observed_data_by_period = []
 
     for t in range(n_periods):
-        meas = pd.DataFrame(
-            data=measurements_from_states(
-                latent_states[t],
-                control_data[t],
-                loadings_df.loc[t].to_numpy(),
-                control_params_df.loc[t].to_numpy(),
-                meas_sds.loc[t].to_numpy().flatten(),
-            ),
-            columns=loadings_df.loc[t].index,
-        )
+        if t in loadings_df.index:
+            meas = pd.DataFrame(
+                data=measurements_from_states(
+                    latent_states[t],
+                    control_data[t],
+                    loadings_df.loc[t].to_numpy(),
+                    control_params_df.loc[t].to_numpy(),
+                    meas_sds.loc[t].to_numpy().flatten(),
+                ),
+                columns=loadings_df.loc[t].index,
+            )
+        else:
+            meas = pd.DataFrame(index=range(n_obs))
         meas["period"] = t
         observed_data_by_period.append(meas)
 
-- 
2.43.0


From adc62fe06347376536b6e49c70f4efaf55617949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 16/36] fix: constant transition function for arbitrary factor
 names

Any string is documented to be a possible factor name but factors with constant
transition function had to be valid Python identifiers.
---
 skillmodels/process_model.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index d260192..afba1b8 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -3,7 +3,6 @@ from functools import partial
 import numpy as np
 import pandas as pd
 from dags import concatenate_functions
-from dags.signature import rename_arguments
 from jax import vmap
 from pandas import DataFrame
 
@@ -177,7 +176,7 @@ def _get_transition_info(model_dict, labels):
         if isinstance(spec, str):
             func = getattr(tf, spec)
             if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
+                func = _get_constant_function(pos=all_factors.index(factor))
             func_list.append(extract_params(func, key=factor))
             param_names.append(getattr(tf, f"params_{spec}")(all_factors))
         elif callable(spec):
@@ -232,6 +231,20 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _get_constant_function(pos):
+    """Convert the constant transition function to a function of all states.
+
+    Renaming the argument of the function to the name of the factor is not possible
+    because factor names do not have to be valid argument names.
+
+    """
+
+    def constant(states, params):
+        return tf.constant(states[pos], params)
+
+    return constant
+
+
 def _get_update_info(model_dict, dimensions, labels, anchoring_info):
     """Construct a DataFrame with information on each Kalman update.
 
-- 
2.43.0


From d0d736a1d7a53471ff2ade50ce8b9a801a7cd2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:59 +0000
Subject: [PATCH 17/36] fix: correlations of periods without measurements

---
 skillmodels/correlation_heatmap.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 23c51a2..616d193 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -293,7 +293,7 @@ def _get_measurement_data_for_single_period(
 
     """
 
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     measurements = []
 
     for fac in latent_factors:
@@ -392,7 +392,7 @@ def _get_quasi_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     to_concat = []
     for factor in latent_factors:
         period_factor_measurements = _get_factor_measurements(period_info, factor)
@@ -501,12 +501,12 @@ def _get_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
-    params = params.query(f"period=={period}").droplevel("period")
-    loadings = params.loc["loadings"]["value"]
-    intercepts = (
-        params.loc["controls"].query("name2 == 'constant'").droplevel("name2")["value"]
-    )
+    period_info = _get_period_info(update_info, period)
+    params = params.query(f"period=={period}")
+    loadings = params.query("category == 'loadings'")["value"]
+    loadings = loadings.droplevel(["category", "period"])
+    intercepts = params.query("category == 'controls' & name2 == 'constant'")["value"]
+    intercepts = intercepts.droplevel(["category", "period", "name2"])
     loadings_count = loadings.astype(bool).groupby("name1").sum()
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
@@ -570,6 +570,12 @@ def _select_period(data, name, period):
     return data[periods == period]
 
 
+def _get_period_info(update_info, period):
+    """Get information on measurements in a period, which can be without any."""
+    is_relevant = update_info.index.get_level_values(0) == period
+    return update_info[is_relevant].droplevel(0).reset_index()
+
+
 def _get_factor_measurements(period_info, factor):
     """Get list of the measurements of a factor."""
     is_measurement = period_info["purpose"] == "measurement"
-- 
2.43.0


From 16bda2a71abdba63f82541d376831a0f6aa3423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:31 +0000
Subject: [PATCH 18/36] fix: align observed factors with states in distribution
 plots

---
 skillmodels/visualize_factor_distributions.py | 54 ++++++++-----------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index e10cda9..f17d266 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -10,6 +10,7 @@ from plotly.subplots import make_subplots
 from scipy.stats import gaussian_kde
 
 from skillmodels.filtered_states import get_filtered_states
+from skillmodels.process_data import pre_process_data
 from skillmodels.process_model import process_model
 from skillmodels.utils_plotting import get_layout_kwargs
 from skillmodels.utils_plotting import get_make_subplot_kwargs
@@ -210,7 +211,7 @@ def univariate_densities(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     scenarios = df["scenario"].unique()
     plots_dict = {}
@@ -314,7 +315,7 @@ def bivariate_density_contours(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data=data, factors=factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     contour_kwargs = _process_contour_kwargs(
@@ -430,7 +431,7 @@ def bivariate_density_surfaces(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     layout_kwargs = _process_layout_kwargs_3d(
@@ -475,27 +476,21 @@ def bivariate_density_surfaces(
 
 def _process_data(states, period, factors, observed_states=None):
     if isinstance(states, pd.DataFrame):
-        to_concat = []
-        for fac in factors:
-            if fac in states:
-                to_concat.append(states.query(f"period == {period}")[fac])
-        data = pd.concat(to_concat, axis=1)
-        data["scenario"] = "none"
-    else:
-        if not isinstance(states, dict):
-            states = {i: df for i, df in enumerate(states)}
-        to_concat = []
-        for name, df in states.items():
-            df = df.query(f"period == {period}")[factors]
-            df["scenario"] = name
-            to_concat.append(df)
-        data = pd.concat(to_concat)
-    data = data.reset_index()
+        states = {"none": states}
+    elif not isinstance(states, dict):
+        states = {i: df for i, df in enumerate(states)}
     if observed_states is not None:
-        data = pd.concat(
-            [data, observed_states.query(f"period == {period}").reset_index()], axis=1
-        )
-    return data
+        observed_states = observed_states.query(f"period == {period}")
+        observed_states = observed_states.reset_index(drop=True)
+    to_concat = []
+    for name, df in states.items():
+        latent_factors = [fac for fac in factors if fac in df]
+        df = df.query(f"period == {period}")[latent_factors].reset_index(drop=True)
+        # the observed factors are the same in all scenarios
+        df = pd.concat([df, observed_states], axis=1)
+        df["scenario"] = name
+        to_concat.append(df)
+    return pd.concat(to_concat, ignore_index=True)
 
 
 def _process_distplot_kwargs(
@@ -624,14 +619,11 @@ def _get_factors(factors, observed_factors, model):
     return factors
 
 
-def _get_data_observed_factors(data, factors):
-    """Get data with observed factors if any."""
-    to_concat = []
-    for fac in factors:
-        if fac in data:
-            to_concat.append(data[fac])
-    if len(to_concat) >= 1:
-        observed_states = pd.concat(to_concat, axis=1)
+def _get_data_observed_factors(data, factors, model):
+    """Get data with observed factors if any, in the order of the states."""
+    observed = [fac for fac in factors if fac in model["labels"]["observed_factors"]]
+    if observed:
+        observed_states = pre_process_data(data, model["labels"]["periods"])[observed]
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 9acec31ac8808314c775d57d685c52cb0ade24dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:31 +0000
Subject: [PATCH 19/36] fix: univariate densities for lists of states

---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index f17d266..58d82c0 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -213,7 +213,8 @@ def univariate_densities(
     )
     observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
-    scenarios = df["scenario"].unique()
+    # plotly does not accept numpy integers as labels
+    scenarios = df["scenario"].unique().tolist()
     plots_dict = {}
     distplot_kwargs = _process_distplot_kwargs(
         show_curve,
-- 
2.43.0


From 715e912302323cc72eff78f14dccbc7a003c9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 20/36] fix: combine univariate densities that contain
 histograms

---
 skillmodels/visualize_factor_distributions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 58d82c0..3f9a3e5 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -125,7 +125,13 @@ def combine_distribution_plots(
                     fig.add_trace(d, col=col + 1, row=row + 1)
                     fig.update_xaxes(title=factor_names[fac1], col=col + 1, row=row + 1)
                     fig.update_yaxes(title="Density", col=col + 1, row=row + 1)
-                    fig.update_traces(line_width=line_width, row=row + 1, col=col + 1)
+                    # histograms do not have lines
+                    fig.update_traces(
+                        line_width=line_width,
+                        selector=lambda trace: "line" in trace,
+                        row=row + 1,
+                        col=col + 1,
+                    )
 
             else:
                 if surface_plots is not None:
-- 
2.43.0


From 15226691d99aaf17c6c611048de67e989a9bc017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 21/36] fix: reduced models do not share normalizations with
 the original

---
 skillmodels/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index 03994df..700816e 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -241,7 +241,7 @@ def reduce_n_periods(model_dict, new_n_periods, params=None):
             out["factors"][factor]["measurements"], new_n_periods
         )
 
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        norminfo = out["factors"][factor].get("normalizations", {})
         if "loadings" in norminfo:
             out["factors"][factor]["normalizations"][
                 "loadings"
-- 
2.43.0


From 0f526cc550ec5b3240ea58b44d655cdbc2d142af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 22/36] fix: report missing anchoring outcomes instead of
 raising a KeyError

---
 skillmodels/process_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 6b0192e..84c56d5 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -91,7 +91,9 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
         outcome = anchoring_info["outcomes"][factor]
-        df[f"{outcome}_{factor}"] = df[outcome]
+        # missing outcomes are reported along with other missing measurements
+        if outcome in df.columns:
+            df[f"{outcome}_{factor}"] = df[outcome]
     return df
 
 
-- 
2.43.0


From bbdc6e8982c8f1d56c65ab4e8bb6789ecbad7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:01 +0000
Subject: [PATCH 23/36] fix: simulate with data that contain no measurements

---
 skillmodels/process_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 84c56d5..3954a80 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -133,7 +133,9 @@ def _handle_controls_with_missings(df, controls, update_info, observed_factors=(
     for period in periods:
         period_data = _select_period(df, period)
         control_data = period_data[controls]
-        meas_data = period_data[get_period_measurements(update_info, period)]
+        # data for simulations do not need to contain measurements
+        measurements = get_period_measurements(update_info, period)
+        meas_data = period_data[period_data.columns.intersection(measurements)]
         problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
         problematic_index = problematic_index.union(period_data[problem].index)
 
-- 
2.43.0


From c6112ed87cfa55b11dab58ae3a5f2855e6d050d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 24/36] fix: pair states and observed factors of the same
 individuals in density plots

---
 skillmodels/visualize_factor_distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 3f9a3e5..a6ceeb7 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -492,7 +492,11 @@ def _process_data(states, period, factors, observed_states=None):
     to_concat = []
     for name, df in states.items():
         latent_factors = [fac for fac in factors if fac in df]
-        df = df.query(f"period == {period}")[latent_factors].reset_index(drop=True)
+        df = df.query(f"period == {period}")
+        # the observed factors are sorted by id
+        if "id" in df.columns:
+            df = df.sort_values("id", kind="stable")
+        df = df[latent_factors].reset_index(drop=True)
         # the observed factors are the same in all scenarios
         df = pd.concat([df, observed_states], axis=1)
         df["scenario"] = name
-- 
2.43.0


From d67abfe9511868904a1bb1adc5a1be2b033d85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 25/36] fix: annotate heatmaps of measurements that measure
 several factors

---
 skillmodels/correlation_heatmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 616d193..2f5a0e0 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -695,11 +695,12 @@ def _get_annotations(
     annotation_kwargs = {}
     if annotate:
         annotations = []
-        for n in df.columns[::-1]:
-            for m in df.index[::-1]:
+        # labels are not unique if measurements measure several factors
+        for j, n in reversed(list(enumerate(df.columns))):
+            for i, m in reversed(list(enumerate(df.index))):
                 annotations.append(
                     {
-                        "text": str(df.loc[m, n]).replace("nan", ""),
+                        "text": str(df.iloc[i, j]).replace("nan", ""),
                         "x": n,
                         "y": m,
                         "xref": "x1",
-- 
2.43.0


From 26931f4630e4cef5b724de8ebf87b6dae35ea49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 26/36] fix: transition plots accept state ranges of the latent
 factors only

---
 skillmodels/visualize_transition_equations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index fb9bd48..4a3e89e 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -314,10 +314,12 @@ def _get_dictionary_with_plots(
 
 
 def _get_state_ranges(state_ranges, states_data, all_factors):
-    """Create state ranges if none is given"""
-    if state_ranges is None:
-        state_ranges = create_state_ranges(states_data, all_factors)
-    return state_ranges
+    """Create state ranges of all factors for which none is given"""
+    # the ranges that come with states only cover the latent factors
+    default_ranges = create_state_ranges(states_data, all_factors)
+    if state_ranges is not None:
+        default_ranges.update(state_ranges)
+    return default_ranges
 
 
 def _get_pardict(model, params):
-- 
2.43.0


From dc6a855cccc99b0139f4e8d9c20b0cc8ecc3ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 27/36] fix: reject anchoring outcomes of unknown factors

---
 skillmodels/check_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 06dea4f..a92a6ee 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -29,7 +29,7 @@ def check_model(model_dict, labels, dimensions, anchoring):
     report = _check_stagemap(
         labels["stagemap"], labels["stages"], dimensions["n_periods"]
     )
-    report += _check_anchoring(anchoring)
+    report += _check_anchoring(anchoring, labels["latent_factors"])
     report += _check_measurements(model_dict, labels["latent_factors"])
     report += _check_normalizations(model_dict, labels["latent_factors"])
 
@@ -54,7 +54,7 @@ def _check_stagemap(stagemap, stages, n_periods):
     return report
 
 
-def _check_anchoring(anchoring):
+def _check_anchoring(anchoring, factors):
     report = []
     if not isinstance(anchoring["anchoring"], bool):
         report.append("anchoring['anchoring'] must be a bool.")
@@ -65,6 +65,9 @@ def _check_anchoring(anchoring):
         for var in variables:
             if not isinstance(var, (str, int, tuple)):
                 report.append("Outcomes variables have to be valid variable names.")
+        for factor in anchoring["outcomes"]:
+            if factor not in factors:
+                report.append(f"Only latent factors can be anchored. Check {factor}.")
 
     if not isinstance(anchoring["free_controls"], bool):
         report.append("anchoring['use_controls'] must be a bool")
-- 
2.43.0


From b6cd1b39158fe37d1e430a0f242ffa7f6c04a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 28/36] fix: reject normalizations of variances

---
 skillmodels/check_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index a92a6ee..439e3fc 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -101,6 +101,10 @@ def _check_normalizations(model_dict, factors):
     report = []
     for factor in factors:
         norminfo = model_dict["factors"][factor].get("normalizations", {})
+        if "variances" in norminfo:
+            report.append(
+                f"normalizations for variances cannot be provided. Check {factor}."
+            )
         for norm_type in ["loadings", "intercepts"]:
             candidate = norminfo.get(norm_type, [])
             if not _is_list_of(candidate, dict):
-- 
2.43.0


From 2c26738c94b1d67ed100ce6da808e7153858d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 29/36] fix: debug data of models with tuples as measurement
 names

---
 skillmodels/process_debug_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index e6022de..41523ed 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -96,7 +96,7 @@ def _create_post_update_states(filtered_states, factors, update_info):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
         df["id"] = np.arange(data.shape[0]).repeat(data.shape[1])
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         to_concat.append(df)
 
     post_states = pd.concat(to_concat)
@@ -167,7 +167,7 @@ def _process_residuals(residuals, update_info):
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
         df["id"] = np.arange(n_obs).repeat(n_mixtures)
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         to_concat.append(df)
     return pd.concat(to_concat)
 
@@ -180,7 +180,7 @@ def _process_all_contributions(all_contributions, update_info):
     to_concat = []
     for (period, meas), contribs in zip(update_info.index, all_contributions):
         df = pd.DataFrame(data=contribs.reshape(-1, 1), columns=["contribution"])
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         df["period"] = period
         df["id"] = np.arange(len(df))
         to_concat.append(df)
-- 
2.43.0


From 812839f18da0c988d8f88612483c063b87d66e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 30/36] fix: correlations of scores for arbitrary measurement
 names

---
 skillmodels/correlation_heatmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 2f5a0e0..da487ee 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -507,8 +507,10 @@ def _get_factor_scores_data_for_single_period(
     loadings = loadings.droplevel(["category", "period"])
     intercepts = params.query("category == 'controls' & name2 == 'constant'")["value"]
     intercepts = intercepts.droplevel(["category", "period", "name2"])
-    loadings_count = loadings.astype(bool).groupby("name1").sum()
+    loadings_count = loadings.astype(bool).groupby("name1", sort=False).sum()
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
+    intercepts = dict(zip(intercepts.index, intercepts))
+    loadings = dict(zip(loadings.index, loadings))
     to_concat = []
     for factor in latent_factors:
         period_factor_measurements = _get_factor_measurements(period_info, factor)
@@ -519,7 +521,7 @@ def _get_factor_scores_data_for_single_period(
             period_factor_measurements
         ]
         for m in period_factor_measurements:
-            df[m] = (df[m] - intercepts.loc[m]) / loadings.loc[(m, factor)]
+            df[m] = (df[m] - intercepts[m]) / loadings[(m, factor)]
         sr = df.mean(axis=1)
         sr.name = f"{factor}"
         to_concat.append(sr)
-- 
2.43.0


From 4636babb46efd52669ecf7d2e86fc47b17cc9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 31/36] fix: accept parameters of any numeric type

---
 skillmodels/filtered_states.py                | 2 +-
 skillmodels/likelihood_function.py            | 2 +-
 skillmodels/simulate_data.py                  | 2 +-
 skillmodels/visualize_transition_equations.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skillmodels/filtered_states.py b/skillmodels/filtered_states.py
index a5ac0b2..f9a1361 100644
--- a/skillmodels/filtered_states.py
+++ b/skillmodels/filtered_states.py
@@ -68,7 +68,7 @@ def anchor_states_df(states_df, model_dict, params):
     )
 
     *_, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
+        params=jnp.array(params["value"].to_numpy(dtype=float)),
         parsing_info=parsing_info,
         dimensions=model["dimensions"],
         labels=model["labels"],
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index b846209..d51f303 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -442,5 +442,5 @@ def _get_jnp_params_vec(params, target_index):
             msg += f"Your params have missing entries: {missing_entries}. "
         raise ValueError(msg)
 
-    vec = jnp.array(params.reindex(target_index)["value"].to_numpy())
+    vec = jnp.array(params.reindex(target_index)["value"].to_numpy(dtype=float))
     return vec
diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 345c102..2f0a648 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -90,7 +90,7 @@ def simulate_dataset(model_dict, params, n_obs=None, data=None, policies=None):
     )
 
     states, covs, log_weights, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
+        params=jnp.array(params["value"].to_numpy(dtype=float)),
         parsing_info=parsing_info,
         dimensions=model["dimensions"],
         labels=model["labels"],
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 4a3e89e..5e5497f 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -332,7 +332,7 @@ def _get_pardict(model, params):
     )
 
     _, _, _, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
+        params=jnp.array(params["value"].to_numpy(dtype=float)),
         parsing_info=parsing_info,
         dimensions=model["dimensions"],
         labels=model["labels"],
-- 
2.43.0


From 5c8c97a48a15d6e30bfb1b85da144d1503d782bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 32/36] fix: accept missing measurements in nullable columns

---
 skillmodels/process_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 3954a80..b0a1635 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -153,14 +153,16 @@ def _handle_controls_with_missings(df, controls, update_info, observed_factors=(
 def _generate_measurements_array(df, update_info, n_obs):
     arr = np.zeros((len(update_info), n_obs))
     for k, (period, var) in enumerate(update_info.index):
-        arr[k] = _select_period(df, period)[var].to_numpy()
+        data = _select_period(df, period)[var]
+        arr[k] = data.to_numpy(dtype=float, na_value=np.nan)
     return jnp.array(arr)
 
 
 def _generate_controls_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
     for period in labels["periods"]:
-        arr[period] = _select_period(df, period)[labels["controls"]].to_numpy()
+        data = _select_period(df, period)[labels["controls"]]
+        arr[period] = data.to_numpy(dtype=float, na_value=np.nan)
     return jnp.array(arr)
 
 
-- 
2.43.0


From 42b8bc668e1d086a6e0ba3aa8e747622efc3a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:45 +0000
Subject: [PATCH 33/36] fix: derivatives of CES technologies with shares of
 zero

---
 skillmodels/transition_functions.py | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/skillmodels/transition_functions.py b/skillmodels/transition_functions.py
index 1297029..6c08bd9 100644
--- a/skillmodels/transition_functions.py
+++ b/skillmodels/transition_functions.py
@@ -85,16 +85,27 @@ def log_ces(states, params):
     gammas = params[:-1]
     scaling_factor = 1 / phi
 
-    # note: once the b argument is supported in jax.scipy.special.logsumexp, we can set
-    # b = gammas instead of adding the log of gammas to sigma_points * phi
-
-    # the log step for gammas underflows for gamma = 0, but this is handled correctly
-    # by logsumexp and does not raise a warning.
-    unscaled = jax.scipy.special.logsumexp(jnp.log(gammas) + states * phi)
+    unscaled = _weighted_logsumexp(states * phi, gammas)
     result = unscaled * scaling_factor
     return result
 
 
+def _weighted_logsumexp(exponents, weights):
+    """Calculate log(sum(weights * exp(exponents))) without overflow.
+
+    In contrast to jax.scipy.special.logsumexp the derivatives are also correct for
+    weights that are zero.
+
+    """
+    is_used = weights != 0
+    shift = jax.lax.stop_gradient(jnp.where(is_used, exponents, -jnp.inf).max())
+    shift = jnp.where(jnp.isfinite(shift), shift, 0)
+    shifted = exponents - shift
+    # unused terms are not bounded by the shift and must not overflow
+    shifted = jnp.where(is_used, shifted, jnp.minimum(shifted, 500))
+    return jnp.log((weights * jnp.exp(shifted)).sum()) + shift
+
+
 def params_log_ces(factors):
     """Index tuples for the log_ces production function."""
     return factors + ["phi"]
@@ -162,12 +173,7 @@ def log_ces_general(states, params):
     gammas = params[:n]
     sigmas = params[n : 2 * n]
 
-    # note: once the b argument is supported in jax.scipy.special.logsumexp, we can set
-    # b = gammas instead of adding the log of gammas to sigma_points * phi
-
-    # the log step for gammas underflows for gamma = 0, but this is handled correctly
-    # by logsumexp and does not raise a warning.
-    unscaled = jax.scipy.special.logsumexp(jnp.log(gammas) + states * sigmas)
+    unscaled = _weighted_logsumexp(states * sigmas, gammas)
     result = unscaled * tfp
     return result
 
-- 
2.43.0


From 20ac26b905515f0995daf71e4010136eadc75fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 34/36] fix: colors of contours with more scenarios than colors
 in the palette

---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index a6ceeb7..fc548dc 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -339,6 +339,7 @@ def bivariate_density_contours(
             if fac1 != fac2:
                 pairs.append((fac1, fac2))
     pairs = list(set(pairs))
+    colors = getattr(px.colors.qualitative, lines_colorscale)
     for pair in pairs:
         fig = go.Figure()
         for i, scenario in enumerate(df["scenario"].unique()):
@@ -351,7 +352,7 @@ def bivariate_density_contours(
                     y=y[0, :],
                     # the rows of z correspond to y values in contour plots
                     z=z.T,
-                    line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
+                    line={"color": colors[i % len(colors)]},
                 )
                 fig.add_trace(contour)
                 fig.update_traces(**contour_kwargs)
-- 
2.43.0


From 37bdb09529c51df47a2d4fadb8068395a164813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 35/36] fix: reject names that cannot be told apart

---
 skillmodels/check_model.py   | 19 +++++++++++++++++++
 skillmodels/process_model.py | 11 +++++++++++
 2 files changed, 30 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 439e3fc..746c411 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -29,6 +29,7 @@ def check_model(model_dict, labels, dimensions, anchoring):
     report = _check_stagemap(
         labels["stagemap"], labels["stages"], dimensions["n_periods"]
     )
+    report += _check_names(labels)
     report += _check_anchoring(anchoring, labels["latent_factors"])
     report += _check_measurements(model_dict, labels["latent_factors"])
     report += _check_normalizations(model_dict, labels["latent_factors"])
@@ -54,6 +55,24 @@ def _check_stagemap(stagemap, stages, n_periods):
     return report
 
 
+def _check_names(labels):
+    report = []
+    reserved = ["id", "period", "purpose", "states", "params"]
+    for factor in labels["all_factors"]:
+        if factor in reserved:
+            report.append(f"Factors must not be called '{factor}'.")
+    if "constant" in labels["observed_factors"]:
+        report.append("Observed factors must not be called 'constant'.")
+    for kind, names in [
+        ("latent and observed factors", labels["all_factors"]),
+        ("controls and the constant", labels["controls"]),
+    ]:
+        duplicates = sorted({str(name) for name in names if names.count(name) > 1})
+        if duplicates:
+            report.append(f"The names of {kind} must be unique. Check {duplicates}.")
+    return report
+
+
 def _check_anchoring(anchoring, factors):
     report = []
     if not isinstance(anchoring["anchoring"], bool):
diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index afba1b8..8873bb7 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -193,6 +193,11 @@ def _get_transition_info(model_dict, labels):
                     "attribute. You can set it via the register_params decorator."
                 )
             func_list.append(extract_params(spec, key=factor, names=names))
+        if len(set(param_names[-1])) < len(param_names[-1]):
+            raise ValueError(
+                "The names of the transition parameters must be unique. Check factor "
+                f"{factor} with the parameters {list(param_names[-1])}."
+            )
 
     function_names = [f.__name__ for f in func_list]
 
@@ -278,6 +283,12 @@ def _get_update_info(model_dict, dimensions, labels, anchoring_info):
         for factor in anchoring_info["factors"]:
             outcome = anchoring_info["outcomes"][factor]
             name = f"{outcome}_{factor}"
+            other_names = labels["controls"] + labels["observed_factors"]
+            if (period, name) in uinfo.index or name in other_names:
+                raise ValueError(
+                    f"The copy of the anchoring outcome {outcome} for {factor} would "
+                    f"be called {name} but there is another variable of this name."
+                )
             uinfo.loc[(period, name), factor] = True
             uinfo.loc[(period, name), "purpose"] = "anchoring"
 
-- 
2.43.0


From af21fce1d77bc198303ddc3c077b2fa453d62362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:56 +0000
Subject: [PATCH 36/36] fix: combine distribution plots if plotting a surface
 failed

---
 skillmodels/visualize_factor_distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index fc548dc..a959d87 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -137,7 +137,9 @@ def combine_distribution_plots(
                 if surface_plots is not None:
                     plot = surface_plots[(fac1, fac2)]
                     camera = {"eye": {"x": eye_x, "y": eye_y, "z": eye_z}}
-                    fig.add_trace(plot.data[0], col=col + 1, row=row + 1)
+                    # the plot is empty if plotting the surface failed
+                    for d in plot.data:
+                        fig.add_trace(d, col=col + 1, row=row + 1)
                     fig.update_scenes(camera=camera, row=row + 1, col=col + 1)
                     fig.update_scenes(
                         xaxis={"title": "", "showgrid": True}, row=row + 1, col=col + 1
-- 
2.43.0

