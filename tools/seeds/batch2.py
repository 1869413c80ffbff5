PRE = '''import sys
import numpy as np, pandas as pd
import rdtools
'''
N = 'rdtools/normalization.py'
D = 'rdtools/degradation.py'
F = 'rdtools/filtering.py'
A = 'rdtools/analysis_chains.py'
V = 'rdtools/availability.py'
S = 'rdtools/soiling.py'
B = 'rdtools/bootstrap.py'
K = 'rdtools/clearsky_temperature.py'
P = 'rdtools/plotting.py'
TA = PRE + '''
from pvlib.location import Location
def system(days=740, freq='2h', tz='Etc/GMT+7', seed=0):
    i = pd.date_range('2018-01-01', periods=days * 12, freq=freq, tz=tz)
    h = i.hour.to_numpy()
    poa = pd.Series(np.clip(np.sin((h - 6) / 12 * np.pi), 0, None) * 900, i)
    rs = np.random.RandomState(seed)
    pv = poa * 1.1 * (1 + 0.05 * rs.rand(len(i)))
    t = pd.Series(20.0, i)
    return pv, poa, t
'''
SEEDS = [
 dict(id='c01-timedelta-days', property='C01',
  edits=[(N, "        max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9\n    # set", "        max_interval_nanoseconds = max_timedelta.seconds * 10.0**9\n    # set")],
  needs='a max_timedelta of one day or more', breaks='days of max_timedelta are ignored, so that valid intervals are treated as gaps',
  demo=PRE + '''
i = pd.date_range('2021-01-01', periods=6, freq='12h')
e = rdtools.energy_from_power(pd.Series(10., i), '12h', max_timedelta=pd.Timedelta('1D'))
sys.exit(0 if np.allclose(e, 120.) else 1)
'''),
 dict(id='c02-interp-limit', property='C02',
  edits=[(N, "df_valid['data'].interpolate(method='index')", "df_valid['data'].interpolate(method='index', limit=24)")],
  needs='more than 24 target times between two valid neighbours', breaks='target times further than 24 points from the previous value are extrapolated or missing',
  demo=PRE + '''
p = pd.Series([0., 60, 120], pd.date_range('2021-01-01', periods=3, freq='h'))
t = pd.date_range('2021-01-01', periods=121, freq='min')
r = rdtools.interpolate(p, t)
sys.exit(0 if np.allclose(r, np.arange(121.)) else 1)
'''),
 dict(id='c03-missing-irradiance', property='C03',
  edits=[(N, "    insolation = energy_from_power(poa_global, freq, power_type='right_labeled')", "    insolation = energy_from_power(poa_global.fillna(0), freq, power_type='right_labeled')")],
  needs='missing irradiance readings', breaks='missing irradiance counts as darkness: the insolation of these intervals is 0 instead of missing',
  demo=PRE + '''
i = pd.date_range('2021-01-01', periods=8, freq='h')
g = pd.Series([100., 200, 300, np.nan, np.nan, 400, 300, 200], i)
en, ins = rdtools.normalize_with_expected_power(pd.Series(50., i), g, g)
sys.exit(0 if not (ins == 0).any() else 1)
'''),
 dict(id='c04-clip-negative', property='C04',
  edits=[(N, "        return factor * irrad_sim\n", "        return (factor * irrad_sim).clip(lower=0)\n")],
  needs='a model with negative (night) values', breaks='the result is not one constant times the model',
  demo=PRE + '''
i = pd.date_range('2021-06-01', periods=96, freq='h')
m = pd.Series(np.maximum(np.sin((i.hour - 6) / 12 * np.pi) * 900, -2.0), i)
r = rdtools.irradiance_rescale(m * 1.1, m)
q = (r / m)
sys.exit(0 if q.max() - q.min() < 1e-6 else 1)
'''),
 dict(id='c05-negative-insolation', property='C05',
  edits=[('rdtools/aggregation.py', "    aggregated = (insolation", "    insolation = insolation.clip(lower=0)\n    aggregated = (insolation")],
  needs='negative (night offset) insolation values', breaks='the result is not the insolation-weighted mean of the bin',
  demo=PRE + '''
i = pd.date_range('2021-01-01', periods=4, freq='6h')
r = rdtools.aggregation_insol(pd.Series([1., 2, 3, 4], i), pd.Series([-10., 100, 200, -10], i))
sys.exit(0 if np.allclose(r.iloc[0], (-10 + 200 + 600 - 40) / 280) else 1)
'''),
 dict(id='c08-fractional-days', property='C08',
  edits=[(D, "    df['days'] = day_diffs / pd.Timedelta('1d')\n    df['years'] = df.days / 365.0\n\n    # add intercept", "    df['days'] = day_diffs.days\n    df['years'] = df.days / 365.0\n\n    # add intercept")],
  needs='data more frequent than daily, or with fractional day offsets', breaks='the regression abscissa is rounded down to whole days',
  demo=PRE + '''
i = pd.date_range('2018-01-01', periods=61, freq='300h')
y = (i - i[0]) / pd.Timedelta('365d')
rd, ci, info = rdtools.degradation_ols(pd.Series(1 - 0.01 * y, i))
sys.exit(0 if abs(rd + 1) < 1e-8 else 1)
'''),
 dict(id='c09-zero-bound', property='C09',
  edits=[(F, "    if energy_normalized_low is None:", "    if not energy_normalized_low:")],
  needs='an explicit lower bound of 0 and negative values', breaks='a lower bound of 0 is taken for no bound',
  demo=PRE + '''
i = pd.date_range('2021-01-01', periods=3, freq='D')
m = rdtools.normalized_filter(pd.Series([-0.5, 0.0, 0.5], i), 0)
sys.exit(0 if m.tolist() == [False, False, True] else 1)
'''),
 dict(id='c11-xgb-units', property='C11',
  edits=[(F, "    df[\"scaled_value\"] = (df[\"value\"] - df[\"value\"].min()) / max_min_diff", "    df[\"scaled_value\"] = (df[\"value\"] - df[\"value\"].min()) / (max_min_diff + 0.01)")],
  needs='data in units in which the maximum is small (e.g. MW of a small system)', breaks='the xgboost clipping filter depends on the units of the data',
  demo=PRE + '''
i = pd.date_range('2021-06-01', periods=96 * 4, freq='15min', tz='Etc/GMT+7')
p = pd.Series(np.clip(np.sin((i.hour + i.minute / 60 - 6) / 12 * np.pi) * 1.5, 0, 1.0), i)
a = rdtools.xgboost_clip_filter(p); b = rdtools.xgboost_clip_filter(p * 1e-3)
sys.exit(0 if (a == b).all() and (~a).any() else 1)
'''),
 dict(id='c12-freq-multiplier', property='C12',
  edits=[(F, "freq_minutes = poa_global_measured.index.freq.nanos / 10**9 / 60", "freq_minutes = poa_global_measured.index.freq.n")],
  needs='lookup_parameters with a frequency not expressed in minutes (e.g. h, 900s)', breaks='the multiple of the frequency is taken for minutes',
  demo=PRE + '''
import pvlib
seen = {}
real = pvlib.clearsky.detect_clearsky
def spy(*a, **k):
    seen.update(k); return real(*a, **k)
pvlib.clearsky.detect_clearsky = spy
i = pd.date_range('2021-06-01', periods=24, freq='h')
p = pd.Series(np.clip(np.sin((i.hour - 6) / 12 * np.pi) * 900, 0, None), i)
try:
    rdtools.pvlib_clearsky_filter(p, p, lookup_parameters=True, infer_limits=False)
except Exception as e:
    print(repr(e))
sys.exit(0 if float(seen['window_length']) == 120 and float(seen['slope_dev']) == 96 else 1)
'''),
 dict(id='c13-adhoc-ffill', property='C13',
  edits=[(A, "                ad_hoc_filter = ad_hoc_filter.reindex(filter_components.index)\n", "                ad_hoc_filter = ad_hoc_filter.reindex(filter_components.index, method=\"ffill\")\n")],
  needs='an ad hoc filter that lacks some times, after an excluded time', breaks='times missing from the ad hoc filter are dropped with the preceding time instead of kept',
  demo=TA + '''
pv, poa, t = system()
ta = rdtools.TrendAnalysis(pv, poa, temperature_cell=t, gamma_pdc=-0.004)
k = pd.Series(True, poa.index)
k[poa.index.hour == 10] = False
ta.filter_params = {'ad_hoc_filter': k[poa.index.hour != 12]}
ta.filter_params_aggregated = {}
ta._sensor_preprocess()
f = ta.sensor_filter
sys.exit(0 if f[f.index.hour == 12].iloc[1:].all() and not f[f.index.hour == 10].any() else 1)
'''),
 dict(id='c14-clearsky-insolation', property='C14',
  edits=[(A, "        self.clearsky_aggregated_insolation = cs_aggregated_insolation[\n            self.clearsky_filter_aggregated\n        ]", "        self.clearsky_aggregated_insolation = cs_aggregated_insolation")],
  needs='a clear-sky analysis with an aggregated filter that drops days', breaks='days dropped by the aggregated filters keep their weight in the clear-sky insolation',
  demo=TA + '''
pv, poa, t = system(760)
ta = rdtools.TrendAnalysis(pv, poa, temperature_ambient=t, gamma_pdc=-0.004)
ta.set_clearsky(poa_global_clearsky=poa, temperature_ambient_clearsky=t)
ta.filter_params = {}
d = pd.date_range('2018-01-01', periods=760, freq='D', tz=poa.index.tz)
k = pd.Series(True, d); k.iloc[100:110] = False
ta.filter_params_aggregated = {'ad_hoc_filter': k}
ta.clearsky_analysis(yoy_kwargs={'uncertainty_method': 'simple'})
sys.exit(0 if ta.clearsky_aggregated_insolation.iloc[101:109].isna().all() else 1)
'''),
 dict(id='c15-other-insolation', property='C15',
  edits=[(A, "            insol = self.clearsky_aggregated_insolation\n", "            insol = getattr(self, \"sensor_aggregated_insolation\", self.clearsky_aggregated_insolation)\n")],
  needs='a sensor analysis run before a clear-sky analysis that uses insolation_filter', breaks='the clear-sky analysis filters with the insolation of an earlier sensor analysis',
  demo=TA + '''
pv, poa, t = system(760)
cs = poa * np.repeat(1 + 0.2 * np.sin(np.arange(760) / 7), 12)
def run(first):
    ta = rdtools.TrendAnalysis(pv, poa, temperature_ambient=t, gamma_pdc=-0.004)
    ta.set_clearsky(poa_global_clearsky=cs, temperature_ambient_clearsky=t)
    ta.filter_params = {}
    ta.filter_params_aggregated = {'insolation_filter': {'quantile': 0.3}}
    if first:
        ta.sensor_analysis()
    ta.clearsky_analysis()
    return ta.clearsky_filter_aggregated
a, b = run(False), run(True)
sys.exit(0 if a.equals(b) else 1)
'''),
 dict(id='c16-trust-validated', property='C16',
  edits=[(A, "        if not isinstance(new_filter_params, dict):", "        if isinstance(new_filter_params, ValidatedFilterDict):\n            self._filter_params = new_filter_params\n            return\n        if not isinstance(new_filter_params, dict):")],
  needs='assigning the validated dict of the aggregated filters to filter_params', breaks='filter names that are not valid for filter_params are accepted',
  demo=TA + '''
pv, poa, t = system(10)
ta = rdtools.TrendAnalysis(pv, poa, temperature_cell=t)
try:
    ta.filter_params = ta.filter_params_aggregated
except KeyError:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='c17-meter', property='C17',
  edits=[(V, "corrected_cumulative_energy = self.energy_cumulative.copy()", "corrected_cumulative_energy = self.energy_cumulative")],
  needs='an availability analysis of data with a full outage', breaks="the corrected production overwrites the caller's cumulative energy",
  demo=PRE + '''
i = pd.date_range('2021-06-01', periods=24 * 20, freq='h', tz='Etc/GMT+7')
x = pd.Series(np.clip(np.sin((i.hour - 6) / 12 * np.pi), 0, None) * 100, i)
sub = pd.DataFrame({'a': x / 2, 'b': x / 2})
sub.loc['2021-06-10':'2021-06-11'] = 0.0
ps = sub.sum(axis=1); e = ps.cumsum()
e.loc['2021-06-10':'2021-06-11'] = np.nan
e.loc['2021-06-11 23:00':'2021-06-11 23:00'] = e.loc['2021-06-09'].iloc[-1] + 100
k = e.copy()
rdtools.availability.AvailabilityAnalysis(ps, sub, e, x).run()
sys.exit(0 if e.equals(k) else 1)
'''),
 dict(id='c18-spa-cache', property='C18',
  edits=[(F, "    times = series.index\n    spa = pvlib.solarposition.get_solarposition(times, lat, lon)\n    eot = spa[\"equation_of_time\"]\n",
          "    times = series.index\n    key = (times[0], times[-1], len(times))\n    if key not in _eot_cache:\n        spa = pvlib.solarposition.get_solarposition(times, lat, lon)\n        _eot_cache[key] = spa[\"equation_of_time\"].to_numpy()\n    eot = _eot_cache[key]\n"),
         (F, "def hour_angle_filter(", "_eot_cache = {}\n\n\ndef hour_angle_filter(")],
  needs='two series with the same number of times and the same first and last time, but other times in between', breaks='the second call uses the equation of time of the first',
  demo=PRE + '''
a = pd.DatetimeIndex(['2021-01-01 12:00', '2021-11-03 11:45:30', '2021-12-31 12:00'], tz='UTC')
b = pd.DatetimeIndex(['2021-01-01 12:00', '2021-02-11 11:45:30', '2021-12-31 12:00'], tz='UTC')
def f(i):
    return rdtools.hour_angle_filter(pd.Series(1., i), 0, 0, -2, 2).tolist()
first = f(a)
second = f(b)
import importlib, rdtools.filtering as m
importlib.reload(m)
fresh = m.hour_angle_filter(pd.Series(1., b), 0, 0, -2, 2).tolist()
print(first, second, fresh)
sys.exit(0 if second == fresh else 1)
'''),
 dict(id='c19-calendar-length', property='C19',
  edits=[(S, "if len(run) > min_interval_length and", "if length > min_interval_length and")],
  needs='an interval with missing days', breaks='intervals with too few data points are fitted because their calendar length is long enough',
  demo=PRE + '''
from rdtools.soiling import SRRAnalysis
i = pd.date_range('2019-01-01', periods=400, freq='D')
k = np.arange(400)
p = pd.Series(1 - 0.004 * (k % 20) + 0.0005 * ((k * 7919) % 11 - 5), i)
p.iloc[101:120:2] = np.nan
rain = pd.Series(np.where(k % 20 == 0, 1.0, 0.0), i)
a = SRRAnalysis(p, pd.Series(5., i), rain)
a.run(reps=5, clean_criterion='precip', min_interval_length=14)
r = a.result_df
row = r[r['start'] == i[100]].iloc[0]
print(r[['start', 'end', 'length', 'valid']])
sys.exit(0 if not row['valid'] and r['valid'].sum() > 10 else 1)
'''),
 dict(id='c21-long-interval-months', property='C21',
  edits=[(S, "months = [x.month for x in days]", "months = [x.month for x in days[:366]]")],
  needs='a soiling interval longer than a year', breaks='days after the first year of an interval do not count for its months',
  demo=PRE + '''
from rdtools.soiling import monthly_soiling_rates
s = pd.DataFrame({'start': pd.to_datetime(['2019-01-01', '2021-02-01', '2022-02-01']), 'end': pd.to_datetime(['2020-06-30', '2021-02-28', '2022-02-12']),
                  'soiling_rate': [-0.001, -0.004, -0.004], 'soiling_rate_low': [-0.001, -0.004, -0.004],
                  'soiling_rate_high': [-0.001, -0.004, -0.004], 'valid': True, 'length': [546, 27, 11]})
r = monthly_soiling_rates(s, min_interval_length=5, max_relative_slope_error=500., reps=1000).set_index('month')
print(r)
sys.exit(0 if abs(r.loc[2, 'soiling_rate_median'] + 0.001) < 1e-12 else 1)
'''),
 dict(id='c23-fill-residuals', property='C23',
  edits=[(B, "residuals = signal / model_fit", "residuals = (signal / model_fit).fillna(1)")],
  needs='missing values in the signal', breaks='missing days of the signal become perfect residuals',
  demo=PRE + '''
from rdtools.bootstrap import _make_time_series_bootstrap_samples as f
i = pd.date_range('2021-01-01', periods=40, freq='D')
s = pd.Series(np.arange(40.) + 10, i); s.iloc[10] = np.nan
fit = pd.Series(2.0, i)
r = f(s, fit, sample_nr=20, block_length=5)
ok = set(np.round(s.dropna().to_numpy(), 9))
v = r.to_numpy(dtype=float).ravel(); v = v[~np.isnan(v)]
sys.exit(0 if set(np.round(v, 9)) <= ok else 1)
'''),
 dict(id='c24-limit-negative', property='C24',
  edits=[(V, "            p_loss.loc[limit_exceeded] = loss.clip(lower=0)", "            p_loss.loc[limit_exceeded] = loss")],
  needs='a power_system_limit below the metered power at some time', breaks='the subsystem loss is negative where the measured power exceeds the limit',
  demo=PRE + '''
i = pd.date_range('2021-06-01', periods=24 * 10, freq='h', tz='Etc/GMT+7')
x = pd.Series(np.clip(np.sin((i.hour - 6) / 12 * np.pi), 0, None) * 100, i)
sub = pd.DataFrame({'a': x / 2, 'b': x / 2}); sub.loc['2021-06-05', 'b'] = 0.0
ps = sub.sum(axis=1)
aa = rdtools.availability.AvailabilityAnalysis(ps, sub, ps.cumsum(), x)
aa.run(power_system_limit=40)
sys.exit(0 if (aa.loss_subsystem >= 0).all() else 1)
'''),
 dict(id='c25-net-meter', property='C25',
  edits=[(V, "            resampled_cumulative.last() - resampled_cumulative.first()", "            resampled_cumulative.max() - resampled_cumulative.min()")],
  needs='a net meter that decreases at night', breaks='actual production of a period is the range of the meter instead of its change',
  demo=PRE + '''
i = pd.date_range('2021-06-01', periods=24 * 30, freq='h', tz='Etc/GMT+7')
x = pd.Series(np.clip(np.sin((i.hour - 6) / 12 * np.pi), 0, None) * 100, i)
sub = pd.DataFrame({'a': x / 2, 'b': x / 2})
ps = sub.sum(axis=1)
e = (ps - 1.0).cumsum()
aa = rdtools.availability.AvailabilityAnalysis(ps, sub, e, x)
aa.run()
c = aa.energy_cumulative_corrected.dropna()
sys.exit(0 if np.allclose(aa.results['actual_production'].iloc[0], c.iloc[-1] - c.iloc[0]) else 1)
'''),
 dict(id='c26-dst-noon', property='C26',
  edits=[(K, "        return longitude / 180.0 * 12.0 - utc_offset\n", "        return longitude / 180.0 * 12.0 - utc_offsets[0]\n")],
  needs='times on both sides of a daylight saving change', breaks='the daily temperature cycle is an hour off after the clock change',
  demo=PRE + '''
import io, h5py
buf = io.BytesIO()
real = h5py.File
with real(buf, 'w') as f:
    g = f.create_group('temperature'); g['day'] = np.full((36, 18, 12), 30.0); g['night'] = np.full((36, 18, 12), 10.0)
raw = buf.getvalue()
h5py.File = lambda *a, **k: real(io.BytesIO(raw), 'r')
from rdtools.clearsky_temperature import get_clearsky_tamb
i = pd.date_range('2021-03-01', '2021-03-31', freq='h', tz='America/Denver')
a = get_clearsky_tamb(i, 40, -105)
b = get_clearsky_tamb(i.tz_convert('UTC'), 40, -105)
sys.exit(0 if np.allclose(a, b) else 1)
'''),
 dict(id='c28-wrong-case', property='C28',
  edits=[(A, "            yoy_info = self.results[\"clearsky\"][\"yoy_degradation\"][\"calc_info\"]", "            yoy_info = self.results.get(\"sensor\", self.results[\"clearsky\"])[\"yoy_degradation\"][\"calc_info\"]")],
  needs='plot_degradation_timeseries for the clear-sky case after both analyses were run', breaks='the sensor results are shown as those of the clear-sky analysis',
  demo=TA + '''
pv, poa, t = system(760)
ta = rdtools.TrendAnalysis(pv, poa, temperature_ambient=t, gamma_pdc=-0.004)
ta.set_clearsky(poa_global_clearsky=poa * np.repeat(1 - 0.0001 * np.arange(760), 12), temperature_ambient_clearsky=t)
ta.filter_params = {}
ta.sensor_analysis()
ta.clearsky_analysis()
fig = ta.plot_degradation_timeseries('clearsky', rolling_days=100)
y = ta.results['clearsky']['yoy_degradation']['calc_info']['YoY_values']
shown = np.concatenate([np.asarray(l.get_ydata(), dtype=float) for l in fig.axes[0].lines])
shown = shown[np.isfinite(shown)]
lo, hi = y.min(), y.max()
z = ta.results['sensor']['yoy_degradation']['calc_info']['YoY_values']
print(lo, hi, z.min(), z.max(), shown.min(), shown.max())
sys.exit(0 if shown.min() >= lo - 1e-9 and shown.max() <= hi + 1e-9 else 1)
'''),
]
