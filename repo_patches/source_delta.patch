From 8a713e8a390e112ae9dea952e70e184b85ea55af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 01/33] fix: instantaneous energy_from_power keeps the interval
 after a gap and never extrapolates

A gap longer than max_timedelta also voided the (fully observed) interval
that follows it, and trailing NaNs were filled with the last power value.
---
 rdtools/normalization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 23784a0..fd3eb81 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -507,10 +507,11 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
         # interpolate with trapz sum
-        time_series = time_series.interpolate(method='time')
-        time_series[gap_mask] = np.nan
+        time_series = time_series.interpolate(method='time', limit_area='inside')
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
+        # omit the intervals that lie inside a gap (but not the one after it)
+        series_sum[gap_mask.values[1:]] = np.nan
     elif series_type == 'right_labeled':
         # bfill and rectangular sum
         time_series = time_series.bfill()
-- 
2.43.0


From 0b9ac283da2f7b0d889894a6c5e6f13c835b5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 02/33] fix: energy_from_power and interpolate handle indexes
 of any datetime resolution

Integer views of the index were taken to be nanoseconds, so that second,
millisecond or microsecond indexes gave NaN, wrong values or exhausted memory.
---
 rdtools/normalization.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index fd3eb81..3808b87 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -197,7 +197,7 @@ def _delta_index(series):
         # If there is no frequency information, explicitly calculate interval
         # sizes. Length of each interval calculated by using 'int64' to convert
         # to nanoseconds.
-        hours = pd.Series(series.index.view('int64') / (10.0**9 * 3600.0))
+        hours = pd.Series(_nanoseconds(series.index) / (10.0**9 * 3600.0))
         hours.index = series.index
         deltas = hours.diff()
     else:
@@ -205,7 +205,7 @@ def _delta_index(series):
         # a meaningful interval for the first element of the timeseries
         # Length of each interval calculated by using 'int64' to convert to
         # nanoseconds.
-        deltas = (series.index - series.index.shift(-1)).view('int64') / \
+        deltas = _nanoseconds(series.index - series.index.shift(-1)) / \
                  (10.0**9 * 3600.0)
     return deltas, np.mean(deltas[~np.isnan(deltas)])
 
@@ -338,12 +338,22 @@ def _check_series_frequency(series, series_description):
 check_series_frequency = deprecated('2.0.0', removal='3.0.0')(_check_series_frequency)
 
 
+def _nanoseconds(index):
+    '''
+    return the values of a DatetimeIndex or TimedeltaIndex as integer
+    nanoseconds, whatever the resolution of the index
+    '''
+    if hasattr(index, 'as_unit'):
+        index = index.as_unit('ns')
+    return index.view('int64')
+
+
 def _t_step_nanoseconds(time_series):
     '''
     return a series of right labeled differences in the index of time_series
     in nanoseconds
     '''
-    t_steps = np.diff(time_series.index.view('int64')).astype('float')
+    t_steps = np.diff(_nanoseconds(time_series.index)).astype('float')
     t_steps = np.insert(t_steps, 0, np.nan)
     t_steps = pd.Series(index=time_series.index, data=t_steps)
     return t_steps
@@ -386,6 +396,10 @@ def energy_from_power(power, target_frequency=None, max_timedelta=None,
         raise ValueError('power must be a pandas series with a '
                          'DatetimeIndex')
 
+    if getattr(power.index, 'unit', 'ns') != 'ns':
+        # the resampling below is only reliable with nanosecond resolution
+        power = power.set_axis(power.index.as_unit('ns'))
+
     if len(power) <= 1:
         # just one value, doesn't make sense to interpolate or trapz aggregate.
         # use the index frequency to determine the appropriate timescale
@@ -488,7 +502,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     values = time_series.values
 
     # Identify gaps (including from nans) bigger than max_time_delta
-    timestamps = time_series.index.view('int64')
+    timestamps = _nanoseconds(time_series.index)
     timestamps = pd.Series(timestamps, index=time_series.index)
     t_diffs = timestamps.diff()
     # Keep track of the gap size but with refilled NaNs and new
@@ -503,7 +517,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
         gap_mask[:time_series.index[0]] = True
 
     time_series = time_series.reindex(union_index)
-    t_diffs = np.diff(time_series.index.view('int64'))
+    t_diffs = np.diff(_nanoseconds(time_series.index))
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
         # interpolate with trapz sum
@@ -576,7 +590,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
     df = df.dropna()
 
     # convert to integer index and calculate the size of gaps in input
-    timestamps = df.index.view("int64").copy()
+    timestamps = _nanoseconds(df.index).copy()
     df["timestamp"] = timestamps
     df["gapsize_ns"] = df["timestamp"].diff()
     df.index = timestamps
@@ -596,7 +610,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
                       UserWarning)
 
     # put data on index that includes both original and target indicies
-    target_timestamps = pd.Index(target_index.view('int64'))
+    target_timestamps = pd.Index(_nanoseconds(target_index))
     union_index = df.index.append(target_timestamps)
     union_index = union_index.drop_duplicates(keep='first')
     df = df.reindex(union_index)
-- 
2.43.0


From d32d81c0ab2b6e497b975e9eee34bd0ce997c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:57 +0000
Subject: [PATCH 03/33] fix: energy_from_power returns NaN instead of
 IndexError when no power value is usable

---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 3808b87..b349a8a 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -512,7 +512,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9
 
     gap_mask = t_diffs > max_interval_nanoseconds
-    if time_series.index[0] != union_index[0]:
+    if len(time_series) > 0 and time_series.index[0] != union_index[0]:
         # mask leading NaNs
         gap_mask[:time_series.index[0]] = True
 
-- 
2.43.0


From 6f9a4ad04d13367c7bafaff4f327cb1a651242cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:33 +0000
Subject: [PATCH 04/33] fix: hour_angle_filter is right on days with a DST
 change and where UTC and solar day differ

---
 rdtools/filtering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..6f12526 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1102,7 +1102,11 @@ def hour_angle_filter(series, lat, lon, min_hour_angle=-30, max_hour_angle=30):
     times = series.index
     spa = pvlib.solarposition.get_solarposition(times, lat, lon)
     eot = spa["equation_of_time"]
-    hour_angle = pvlib.solarposition.hour_angle(times, lon, eot)
+    # use UTC, as elapsed and clock time differ on days with a DST change
+    utc_times = times if times.tz is None else times.tz_convert("UTC")
+    hour_angle = pvlib.solarposition.hour_angle(utc_times, lon, eot)
+    # the UTC and the solar day differ, so wrap to [-180, 180)
+    hour_angle = (hour_angle + 180) % 360 - 180
     hour_angle = pd.Series(hour_angle, index=times)
     mask = (hour_angle >= min_hour_angle) & (hour_angle <= max_hour_angle)
 
-- 
2.43.0


From 08a982f09442a6f2590b8fac7b7709ce606fb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:09 +0000
Subject: [PATCH 05/33] fix: lower Tukey fence honours k

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 6f12526..38d9ee4 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1029,7 +1029,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From 0e12d4a242203b4f41fbc132f8aa5e0b6d2b6629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:19 +0000
Subject: [PATCH 06/33] fix: usage_of_points counts a start point whose first
 pairing has no slope

---
 rdtools/degradation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..0124a4a 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -286,7 +286,8 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
     yoy_result = df.yoy.dropna()
 
-    df_right = df.set_index(df.dt_right).drop_duplicates('dt_right')
+    df_right = df[df.yoy.notnull()]
+    df_right = df_right.set_index(df_right.dt_right).drop_duplicates('dt_right')
     df['usage_of_points'] = df.yoy.notnull().astype(int).add(
                 df_right.yoy.notnull().astype(int), fill_value=0)
 
-- 
2.43.0


From eb299e403aad6e43510ec11b363993eb401066c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:19 +0000
Subject: [PATCH 07/33] fix: year-on-year pairing on leap days does not depend
 on an unstable sort

29 and 28 February share their anniversary; which of the two was paired
depended on the length of the series and on the sorting implementation.
---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 0124a4a..1baab25 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -274,7 +274,7 @@ def degradation_year_on_year(energy_normalized, recenter=True,
     # Merge with what happened one year ago, use tolerance of 8 days to allow
     # for weekly aggregated data
     df = pd.merge_asof(energy_normalized[['dt', 'energy']],
-                       energy_normalized.sort_values('dt_shifted'),
+                       energy_normalized.sort_values('dt_shifted', kind='stable'),
                        left_on='dt', right_on='dt_shifted',
                        suffixes=['', '_right'],
                        tolerance=pd.Timedelta('8D')
-- 
2.43.0


From 44645cc8974eb4fd94380a8fa30e9dcc4e332968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:08 +0000
Subject: [PATCH 08/33] fix: OLS and classical decomposition rates work on a
 constant series

---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1baab25..b64e4e3 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -43,7 +43,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
     df['years'] = df.days / 365.0
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_normalized,
@@ -137,7 +137,7 @@ def degradation_classical_decomposition(energy_normalized,
     df['energy_ma'] = energy_ma
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_ma, exog=df.loc[:, ['const', 'years']],
-- 
2.43.0


From 065dd203aaedb5b3f8c9e860783e567d1e8f96f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:08 +0000
Subject: [PATCH 09/33] fix: Mann-Kendall tie correction reduces the variance

---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index b64e4e3..ce59231 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -402,7 +402,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From 8d8082e84a3398c18f70cd81399f1fae509777de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:29 +0000
Subject: [PATCH 10/33] fix: OLS and classical decomposition no longer rename
 the caller's series

---
 rdtools/degradation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index ce59231..c301df6 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,8 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     # calculate a years column as x value for regression, ignoring leap years
     day_diffs = (df.index - df.index[0])
@@ -109,8 +108,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     df_check_freq = df.copy()
 
-- 
2.43.0


From b13b72c836dc9bccaa3dd17849abfdc0d8677924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:29 +0000
Subject: [PATCH 11/33] fix: classical decomposition rejects missing data at
 the ends of the series too

---
 rdtools/degradation.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index c301df6..e89afb6 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -110,13 +110,9 @@ def degradation_classical_decomposition(energy_normalized,
 
     df = energy_normalized.to_frame(name='energy_normalized')
 
-    df_check_freq = df.copy()
-
-    # The frequency attribute will be set to None if rows are dropped.
-    # We can use this to check for missing data and raise a ValueError.
-    df_check_freq = df_check_freq.dropna()
-
-    if df_check_freq.index.freq is None:
+    # Dropping rows at either end of the series keeps the frequency attribute,
+    # so missing data have to be checked for explicitly.
+    if df.index.freq is None or df['energy_normalized'].isna().any():
         raise ValueError('Classical decomposition requires a regular time '
                          'series with defined frequency and no missing data.')
 
-- 
2.43.0


From 0de8f54766d08d3757d2d7924e8986a8b307a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:16 +0000
Subject: [PATCH 12/33] fix: logic_clip_filter accepts duplicate timestamps
 inside a clipped stretch

---
 rdtools/filtering.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 38d9ee4..d6b0b68 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -640,8 +640,7 @@ def logic_clip_filter(
     if original_time_series_sampling_frequency < 10:
         clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
         # Subset the series where clipping filter == True
-        clip_pwr = power_ac_copy[clipping]
-        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
+        clip_pwr = power_ac_copy.where(clipping)
         # Set any values within the clipping max + clipping min threshold
         # as clipping. This is done specifically for capturing the noise
         # for high frequency data sets.
@@ -663,8 +662,7 @@ def logic_clip_filter(
         # Find the maximum and minimum power_ac level where clipping is
         # detected each day.
         clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
-        clip_pwr = power_ac_copy[clipping]
-        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
+        clip_pwr = power_ac_copy.where(clipping)
         daily_clipping_max = clip_pwr.resample("D").max()
         daily_clipping_min = clip_pwr.resample("D").min()
         daily_clipping_min = daily_clipping_min.reindex(
-- 
2.43.0


From fc41349996594a5bbe53bb60af7aeae35dff352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:32 +0000
Subject: [PATCH 13/33] fix: logic_clip_filter does not depend on the name of
 the index

---
 rdtools/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index d6b0b68..e4b5a16 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -589,11 +589,7 @@ def logic_clip_filter(
     original_time_series_sampling_frequency = time_series_sampling_frequency
     power_ac_copy = power_ac.copy()
     # Drop duplicate indices
-    power_ac = (
-        power_ac.reset_index()
-        .drop_duplicates(subset=power_ac.index.name, keep="first")
-        .set_index(power_ac.index.name)
-    )
+    power_ac = power_ac[~power_ac.index.duplicated(keep="first")].to_frame()
     freq_string = str(time_series_sampling_frequency) + "min"
     # Set days with the majority of frozen data to null.
     daily_std = power_ac.resample("D").std() / power_ac.resample("D").mean()
-- 
2.43.0


From 8eed75830debd452e8bc4256a50ca7bf1c54acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 14/33] fix: filter settings are validated in setdefault and
 |=, and update accepts an iterator

---
 rdtools/analysis_chains.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..a80e6d1 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -1283,10 +1283,21 @@ class ValidatedFilterDict(dict):
         super(ValidatedFilterDict, self).__setitem__(key, value)
 
     def update(self, *args, **kwargs):
-        for key in dict(*args, **kwargs).keys():
+        # build the dict once, as args may hold an iterator
+        new = dict(*args, **kwargs)
+        for key in new.keys():
             if key not in self.valid_keys:
                 raise KeyError(self._err_msg.format(key))
-        super(ValidatedFilterDict, self).update(*args, **kwargs)
+        super(ValidatedFilterDict, self).update(new)
+
+    def setdefault(self, key, default=None):
+        if key not in self.valid_keys:
+            raise KeyError(self._err_msg.format(key))
+        return super(ValidatedFilterDict, self).setdefault(key, default)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def _validate_keys(self):
         for key in self.keys():
-- 
2.43.0


From 117c72998844f8ccc6a78a2306a4ededdbda6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 15/33] fix: clearsky_analysis works without clearsky_filter in
 filter_params

---
 rdtools/analysis_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index a80e6d1..419fb1d 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -597,7 +597,7 @@ class TrendAnalysis:
             )
             filter_components["hour_angle_filter"] = f
 
-        if case == "clearsky":
+        if case == "clearsky" and "clearsky_filter" in self.filter_params:
             filter_components["clearsky_filter"] = _call_clearsky_filter(
                 "clearsky_filter"
             )
-- 
2.43.0


From 042e391ceb1fd4dc54101a064c954f8b4e35046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 16/33] fix: sensor_clearsky_filter is only used in a sensor
 analysis

---
 rdtools/analysis_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 419fb1d..4337788 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -602,7 +602,7 @@ class TrendAnalysis:
                 "clearsky_filter"
             )
 
-        if "sensor_clearsky_filter" in self.filter_params:
+        if case == "sensor" and "sensor_clearsky_filter" in self.filter_params:
             filter_components["sensor_clearsky_filter"] = _call_clearsky_filter(
                 "sensor_clearsky_filter"
             )
-- 
2.43.0


From 6ca71e97af423c9ede90bb0ee5f02f4117b20204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 17/33] fix: analyses do not modify the user's ad_hoc_filter

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 4337788..517e4ad 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,6 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter = ad_hoc_filter.copy()
                 ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
 
             if not filter_components.index.equals(ad_hoc_filter.index):
@@ -709,6 +710,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.copy()
                 ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
 
             if not filter_components_aggregated.index.equals(
-- 
2.43.0


From 5a52e52ddc0f5adf334233aa0463e1444ba4df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:34 +0000
Subject: [PATCH 18/33] fix: system loss of a daytime outage integrates to the
 reported loss

---
 rdtools/availability.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 06d5778..9da6e28 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -498,12 +498,16 @@ class AvailabilityAnalysis:
         # scaling the expected power signal to match the actual
         lost_power_full = pd.Series(0, index=self.loss_subsystem.index, dtype=float)
         expected_power = self.power_expected
+        # integrate the whole series, so that the first interval of each outage
+        # is included and outages of a single interval need no index frequency
+        expected_energy = rdtools.energy_from_power(expected_power)
+        expected_energy = expected_energy.reindex(all_times, fill_value=0)
         corrected_cumulative_energy = self.energy_cumulative.copy()
         for i, row in self.outage_info.iterrows():
             start = row['start']
             end = row['end']
             subset = expected_power.loc[start:end].copy()
-            subset_energy = rdtools.energy_from_power(subset)
+            subset_energy = expected_energy.loc[start:end]
             loss_fill = subset * row['loss'] / subset_energy.sum()
             lost_power_full.loc[subset.index] += loss_fill
 
-- 
2.43.0


From 4426f76726f1e42aac07b9c67bddd8905a2e6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:47 +0000
Subject: [PATCH 19/33] fix: outage at the start of the data does not take its
 starting energy from the end of the data

---
 rdtools/availability.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 9da6e28..228691d 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -438,8 +438,9 @@ class AvailabilityAnalysis:
             outage_expected_energy = self.energy_expected_rescaled[start:end]
 
             # self.cumulative_energy[start] is the first value in the outage.
-            # so to get the starting energy, need to get previous value:
-            start_minus_one = all_times[all_times.get_loc(start)-1]
+            # so to get the starting energy, need to get previous value
+            # (there is none if the data starts in an outage):
+            start_minus_one = all_times[max(all_times.get_loc(start)-1, 0)]
 
             data = {
                 'start': start,
-- 
2.43.0


From afe8745139e93a5c22f30b71cad8802523c1eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:06 +0000
Subject: [PATCH 20/33] fix: a low_threshold series may list the subsystems in
 any order

---
 rdtools/availability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 228691d..338fb93 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -249,7 +249,7 @@ class AvailabilityAnalysis:
             # outages, shading etc) don't affect the estimate:
             low_threshold = power_subsystem.quantile(0.99) / 1000
 
-        self.reporting_mask = looks_online = power_subsystem > low_threshold
+        self.reporting_mask = looks_online = power_subsystem.gt(low_threshold)
         reporting = power_subsystem[looks_online]
         if relative_sizes is None:
             # normalize by mean power and take the median across the timeseries
-- 
2.43.0


From f7fabe28c861b8b2c85fba1d007424942f5259ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:43 +0000
Subject: [PATCH 21/33] fix: soiling profiles count calendar days across
 daylight saving changes

---
 rdtools/soiling.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..18f807f 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -325,7 +325,7 @@ class SRRAnalysis():
         pm_frame_out['loss_perfect_clean'] = np.nan
         pm_frame_out['loss_inferred_clean'] = np.nan
         pm_frame_out['days_since_clean'] = \
-            (pm_frame_out.index - pm_frame_out.start).dt.days
+            _days_since(pm_frame_out.index, pm_frame_out.start)
 
         # Calculate the daily derate
         pm_frame_out['loss_perfect_clean'] = \
@@ -490,7 +490,7 @@ class SRRAnalysis():
                              .set_index('date')
             df_rand['loss'] = np.nan
             df_rand['days_since_clean'] = \
-                (df_rand.index - df_rand.start).dt.days
+                _days_since(df_rand.index, df_rand.start)
             df_rand['loss'] = df_rand.start_loss + \
                 df_rand.days_since_clean * df_rand.run_slope
 
@@ -841,6 +841,13 @@ def soiling_srr(energy_normalized_daily, insolation_daily, reps=1000,
     return sr, sr_ci, soiling_info
 
 
+def _days_since(index, start):
+    '''Return the number of calendar days from each element of the series
+    start to the corresponding timestamp of index. Local (wall clock) time is
+    used so that days that are not 24 hours long count as one day.'''
+    return (index.tz_localize(None) - start.dt.tz_localize(None)).dt.days
+
+
 def _count_month_days(start, end):
     '''Return a dict of number of days between start and end
     (inclusive) in each month'''
-- 
2.43.0


From d78b9a82494554e95a318cc7d3b4d9d370f1e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 22/33] fix: constant derates of invalid soiling intervals are
 assigned to their own intervals

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 18f807f..da8fd79 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -456,7 +456,7 @@ class SRRAnalysis():
                     invalid_intervals['previous_end'].fillna(1.0)
                 invalid_intervals['next_start'] = \
                     invalid_intervals['next_start'].fillna(1.0)
-                groups = set(invalid_intervals.group)
+                groups = sorted(set(invalid_intervals.group))
                 replace_levels = []
 
                 if len(groups) > 0:
-- 
2.43.0


From 118495e9ba6ef1545d4cb8a35aac2fe0d6ac0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:31 +0000
Subject: [PATCH 23/33] fix: CODS soiling loss bound is in percent when the
 soiling signal is small

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index da8fd79..6e55cea 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1774,7 +1774,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From 213242b98fa3063fe9f1883049e26a500b3b2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:53 +0000
Subject: [PATCH 24/33] fix: CODS reports the best initial model fit instead of
 the last one

---
 rdtools/soiling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 6e55cea..82b9927 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1881,6 +1881,9 @@ class CODSAnalysis():
         ci_low_edge = (50 - confidence_level / 2) / 100
         ci_high_edge = (50 + confidence_level / 2) / 100
 
+        # Start from the best of the initial model fits
+        df_out = result_df.copy()
+
         # Concatenate boostrap model fits
         concat_tot_mod = pd.concat([kdf.total_model for kdf in bt_kdfs], axis=1)
         concat_SR = pd.concat([kdf.soiling_ratio for kdf in bt_kdfs], axis=1)
-- 
2.43.0


From 52e5e744435bc32d88b74b50c74c4a20dd02ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:57 +0000
Subject: [PATCH 25/33] fix: CODS bootstrap copes with initial fits that failed

---
 rdtools/soiling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 82b9927..b6938fb 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1792,13 +1792,15 @@ class CODSAnalysis():
         # components, by perturbing amplitude and phase shift
         # Number of samples per fit:
         sample_nr = int(reps / nr_models)
-        list_of_SCs = [list_of_df_out[m].seasonal_component
-                       for m in range(nr_models) if weights[m] > 0]
+        list_of_SCs = [df.seasonal_component
+                       for df, adf in zip(list_of_df_out, adfs) if adf != 0]
         seasonal_samples = _make_seasonal_samples(list_of_SCs,
                                                   sample_nr=sample_nr,
                                                   min_multiplier=.8,
                                                   max_multiplier=1.75,
                                                   max_shift=30)
+        # Initial fits that failed do not contribute any samples
+        reps = all_bootstrap_samples.shape[1]
 
         # ###################### #
         # ###### STAGE 2 ####### #
-- 
2.43.0


From 192b9792942070d42177e75edc549ab9f779ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:48 +0000
Subject: [PATCH 26/33] fix: CODS decomposition accepts an order in which the
 soiling ratio comes last

---
 rdtools/soiling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index b6938fb..f28d725 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1369,7 +1369,8 @@ class CODSAnalysis():
 
             # Find soiling component
             if order[(ic-1) % n_steps] == 'SR':
-                if ic > 2:  # Add possible cleaning events found by considering
+                if ic > 2 and soiling_dfs:
+                    # Add possible cleaning events found by considering
                     # the residuals
                     pce = soiling_dfs[-1].cleaning_events.copy()
                     cleaning_sensitivity *= 1.2  # decrease sensitivity
-- 
2.43.0


From 745f2a88ec8d4996cd03d174ea4f439916c2d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 27/33] fix: clear-sky temperature next to the date line and at
 the south pole

---
 rdtools/clearsky_temperature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index ebe617f..67b706b 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -76,8 +76,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     lon_temp = longitude - 180
     if lon_temp < 0:
         lon_temp += 360
-    lon_index = round(float(lons) * float(lon_temp) / 360.0)
-    lat_index = round(float(lats) * (90.0 - float(latitude)) / 180.0)
+    # nearest pixel; longitudes wrap around, and there is no row at -90 degrees
+    lon_index = round(float(lons) * float(lon_temp) / 360.0) % lons
+    lat_index = min(round(float(lats) * (90.0 - float(latitude)) / 180.0), lats - 1)
 
     df = pd.DataFrame(index=dt_daily)
     df['month'] = df.index.month
-- 
2.43.0


From 31c27354f86d336f1ed3a8a219e682ad85af5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 28/33] fix: clear-sky temperature in time zones that repeat
 midnight

---
 rdtools/clearsky_temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 67b706b..dc6d67f 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -62,7 +62,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
-    dt_daily = dt_daily.tz_localize(times.tz, ambiguous='infer',
+    # midnight is repeated or skipped in time zones that change clocks then
+    dt_daily = dt_daily.tz_localize(times.tz,
+                                    ambiguous=np.ones(len(dt_daily), dtype=bool),
                                     nonexistent='shift_forward')
 
     f = h5py.File(filepath, "r")
-- 
2.43.0


From 951224bcbcce4a248fabb5115b72424608e9999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 29/33] fix: clear-sky temperature for times whose frequency
 cannot be inferred

---
 rdtools/clearsky_temperature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index dc6d67f..49b13ee 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -57,6 +57,8 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
             freq_actual = pd.infer_freq(times[:10])
             warnings.warn("Input 'times' has no frequency attribute. "
                           "Inferring frequency from first 10 timestamps.")
+            if freq_actual is None:
+                freq_actual = times.to_series().diff().median()
     else:
         freq_actual = times.freq
 
-- 
2.43.0


From 43888cf8a97af8761614aab760b73140a4253739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 30/33] fix: the clipping model is shared between threads only
 after it is loaded

---
 rdtools/filtering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index e4b5a16..b7e129d 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -20,8 +20,10 @@ model_path = os.path.join(
 def _load_xgboost_clipping_model():
     global xgboost_clipping_model
     if xgboost_clipping_model is None:
-        xgboost_clipping_model = xgb.XGBClassifier()
-        xgboost_clipping_model.load_model(model_path)
+        model = xgb.XGBClassifier()
+        model.load_model(model_path)
+        # publish the model only when it is loaded
+        xgboost_clipping_model = model
     return xgboost_clipping_model
 
 
-- 
2.43.0


From 26563f546bd79c1e8305dd39bae214ad8eee5047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:35 +0000
Subject: [PATCH 31/33] fix: clear-sky temperature keeps every day when the
 times are not on the grid of midnights

---
 rdtools/clearsky_temperature.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 49b13ee..03f458e 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -49,19 +49,6 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     buffer = timedelta(days=window_size)
 
-    if times.freq is None:
-        freq_actual = pd.infer_freq(times)
-        if freq_actual is None:
-            times._engine.clear_mapping()
-            # workaround from https://github.com/pandas-dev/pandas/issues/55794
-            freq_actual = pd.infer_freq(times[:10])
-            warnings.warn("Input 'times' has no frequency attribute. "
-                          "Inferring frequency from first 10 timestamps.")
-            if freq_actual is None:
-                freq_actual = times.to_series().diff().median()
-    else:
-        freq_actual = times.freq
-
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
     # midnight is repeated or skipped in time zones that change clocks then
@@ -106,10 +93,11 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     df = df.rolling(window=window_size, win_type='gaussian', min_periods=1,
                     center=True).mean(std=gauss_std)
 
-    df = df.resample(freq_actual).interpolate(method='linear')
-    df['month'] = df.index.month
-
-    df = df.reindex(times, method='nearest')
+    # interpolate the daily values at the given times. Resampling to the
+    # frequency of the times would drop the days that are not on its grid,
+    # e.g. after a daylight saving change.
+    df = df.reindex(df.index.union(times.unique())).interpolate(method='time')
+    df = df.reindex(times)
 
     utc_offsets = [y.utcoffset().total_seconds() / 3600.0 for y in df.index]
 
-- 
2.43.0


From 826b87dd0ad6411490812630e09f1f11f46c00af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:39 +0000
Subject: [PATCH 32/33] fix: degradation summary plots of fewer than 40 slopes

---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index 93a07ba..efb8fbb 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -72,7 +72,7 @@ def degradation_summary_plots(yoy_rd, yoy_ci, yoy_info, normalized_yield,
     yoy_values = yoy_info['YoY_values']
 
     if bins is None:
-        bins = len(yoy_values) // 40
+        bins = max(len(yoy_values) // 40, 1)
 
     bins = int(min(bins, len(yoy_values)))
 
-- 
2.43.0


From 2f56039b7d99aaff5b229f7cc0c6fa494b700aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:39 +0000
Subject: [PATCH 33/33] fix: degradation time series plot labels its own axes

---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index efb8fbb..28e1549 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -498,7 +498,7 @@ def degradation_timeseries_plot(yoy_info, rolling_days=365, include_ci=True,
         ax.fill_between(ci_lower.index, ci_lower, ci_upper, color=ci_color)
     ax.plot(roller.median(), color=plot_color, **kwargs)
     ax.axhline(results_values.median(), c='k', ls='--')
-    plt.ylabel('Degradation trend (%/yr)')
+    ax.set_ylabel('Degradation trend (%/yr)')
     fig.autofmt_xdate()
 
     return fig
-- 
2.43.0

