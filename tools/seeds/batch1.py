PRE = '''import sys
import numpy as np, pandas as pd
import rdtools
'''
N = 'rdtools/normalization.py'
D = 'rdtools/degradation.py'
F = 'rdtools/filtering.py'
SEEDS = [
 dict(id='c01-leading-nan', property='C01',
  edits=[(N, "        gap_mask[:time_series.index[0]] = True", "        gap_mask.iloc[0] = True")],
  needs='a series that begins with two or more NaN readings, right-labeled',
  breaks='energy is attributed to intervals before the first valid measurement',
  demo=PRE+'''
i = pd.date_range('2020-01-01', periods=8, freq='h')
p = pd.Series([np.nan, np.nan, np.nan, 100., 100, 100, 100, 100], i)
e = rdtools.energy_from_power(p)
sys.exit(0 if e.iloc[:2].isna().all() else 1)
'''),
 dict(id='c01-monthly-interval', property='C01',
  edits=[(N, "            freq_interval_size_ns = temp_diffs.median()", "            freq_interval_size_ns = temp_diffs.min()")],
  needs='a calendar target frequency whose shortest interval is not longer than the median step of the input while its median is',
  breaks='irregular monthly input is interpolated before integration although the target is longer than the median step',
  demo=PRE+'''
i = pd.DatetimeIndex(['2021-01-01','2021-01-30','2021-02-28','2021-03-30','2021-04-28','2021-05-27','2021-06-30','2021-07-31'])
i = pd.date_range('2021-01-01', periods=10, freq='29D')
p = pd.Series([10., 50, 20, 70, 30, 80, 10, 60, 20, 40], i)
e = rdtools.energy_from_power(p, 'MS', max_timedelta=pd.Timedelta('40D'))
tot = e.sum(); ex = sum(p.iloc[1:].to_numpy()) * 29 * 24
print(tot, ex)
sys.exit(0 if abs(tot - ex) < 1e-6 * ex else 1)
'''),
 dict(id='c02-shared-gap-limit', property='C02',
  edits=[(N, """        out_list = []
        for col in time_series.columns:""", """        out_list = []
        if max_timedelta is None and len(time_series.columns) > 1:
            max_timedelta = 2 * time_series.index.to_series().diff().median()
        for col in time_series.columns:""")],
  needs='a DataFrame one of whose columns is sparser than the index, default max_timedelta',
  breaks='columns are not treated independently: the default gap limit comes from the common index',
  demo=PRE+'''
i = pd.date_range('2020-01-01', periods=13, freq='h')
d = pd.DataFrame({'a': np.arange(13.), 'b': [x if x % 4 == 0 else np.nan for x in range(13)]}, i)
r = rdtools.interpolate(d, i)
s = rdtools.interpolate(d['b'], i)
sys.exit(0 if np.allclose(r['b'], s, equal_nan=True) else 1)
'''),
 dict(id='c03-model-interp-freq', property='C03',
  edits=[(N, "        poa_global = interpolate(poa_global, pv.index)", "        poa_global = poa_global.reindex(pv.index, method='ffill')")],
  needs='a model coarser than the measurement with varying irradiance',
  breaks='insolation is integrated from a stepwise instead of a linearly interpolated irradiance',
  demo=PRE+'''
i = pd.date_range('2020-01-01', periods=25, freq='15min'); j = pd.date_range('2020-01-01', periods=7, freq='h')
pv = pd.Series(100., i); g = pd.Series([100., 300, 500, 700, 500, 300, 100], j)
en, ins = rdtools.normalize_with_expected_power(pv, g * 2, g)
gi = rdtools.interpolate(g, i)
ex = rdtools.energy_from_power(gi, '15min')
sys.exit(0 if np.allclose(ins.reindex(ex.index), ex, equal_nan=True) else 1)
'''),
 dict(id='c05-origin', property='C05',
  edits=[('rdtools/aggregation.py', "(insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \\\n        insolation.resample(frequency, origin='start_day').sum()",
          "(insolation * energy_normalized).resample(frequency, origin='start').sum() / \\\n        insolation.resample(frequency, origin='start').sum()")],
  needs='data that do not start at midnight and an aggregation frequency of several days or of hours',
  breaks='bins are anchored at the first timestamp instead of midnight of the first day',
  demo=PRE+'''
i = pd.date_range('2020-01-01 07:00', periods=60, freq='h')
e = pd.Series(np.arange(60.), i); w = pd.Series(1., i)
a = rdtools.aggregation_insol(e, w, '5h')
sys.exit(0 if a.index[0] == pd.Timestamp('2020-01-01 05:00') else 1)
'''),
 dict(id='c06-tolerance', property='C06',
  edits=[(D, "tolerance=pd.Timedelta('8D')", "tolerance=pd.Timedelta('7D')")],
  needs='a point whose nearest one-year-earlier partner is more than 7 and at most 8 days off',
  breaks='year-on-year pairs 7-8 days off are dropped',
  demo=PRE+'''
i = pd.date_range('2018-01-01', periods=27, freq='MS').append(pd.DatetimeIndex(['2020-04-09']))
s = pd.Series(np.linspace(1, .9, len(i)), i)
rd, ci, info = rdtools.degradation_year_on_year(s.drop(pd.Timestamp('2020-03-01')))
sys.exit(0 if pd.Timestamp('2020-04-09') in info['YoY_values'].index else 1)
'''),
 dict(id='c06-first-year', property='C06',
  edits=[(D, "        oneyear = start + pd.Timedelta('364d')", "        oneyear = start + pd.DateOffset(years=1)")],
  needs='coarse data where the point exactly one year after the first changes the first-year median',
  breaks='the first-year median includes the anniversary point',
  demo=PRE+'''
i = pd.date_range('2018-01-01', periods=40, freq='MS')
s = pd.Series([1 + .01 * k for k in range(40)], i)
rd, ci, info = rdtools.degradation_year_on_year(s)
sys.exit(0 if abs(info['renormalizing_factor'] - np.median(s.iloc[:12])) < 1e-9 else 1)
'''),
 dict(id='c07-block-exceedance', property='C07',
  edits=[(D, """                exceedance_prob=exceedance_prob, confidence_level=confidence_level,
                recenter=False, uncertainty_method='none')""", """                confidence_level=confidence_level,
                recenter=False, uncertainty_method='none')""")],
  needs='uncertainty_method circular_block with exceedance_prob other than the default',
  breaks='the exceedance level ignores exceedance_prob',
  demo=PRE+'''
i = pd.date_range('2018-01-07', periods=156, freq='W')
rng = np.random.RandomState(0)
s = pd.Series(1 - .01 * np.arange(156) / 52 + .02 * rng.randn(156), i)
r, c, info = rdtools.degradation_year_on_year(s, uncertainty_method='circular_block', exceedance_prob=50, block_length=10)
sys.exit(0 if abs(info['exceedance_level'] - np.percentile(info['bootstrap_rates'], 50)) < 1e-9 else 1)
'''),
 dict(id='c08-full-year', property='C08',
  edits=[(D, 'df["years"] <= df["years"].iloc[-1] - 0.5', 'df["years"] < df["years"].iloc[-1] - 0.5')],
  needs='a series whose length puts a point exactly half a year from the end',
  breaks='a valid moving-average point at exactly half a year from the end is dropped',
  demo=PRE+'''
i = pd.date_range('2018-01-01', periods=731, freq='D')
s = pd.Series(1 - .0001 * np.arange(731), i)
i = pd.date_range('2018-01-01', periods=7, freq=pd.Timedelta(hours=365*24/2))
s = pd.Series([1, .98, .97, .97, .95, .94, .92], i)
rd, ci, info = rdtools.degradation_classical_decomposition(s)
sys.exit(0 if info['series'].notna().sum() == 5 else 1)
'''),
 dict(id='c09-csi-abs', property='C09',
  edits=[(F, """    return (csi >= 1.0 - threshold) & (csi <= 1.0 + threshold)
""", """    return ~((csi < 1.0 - threshold) | (csi > 1.0 + threshold))
""")],
  needs='a NaN in measured or clear-sky irradiance (or 0/0 at night)',
  breaks='undefined clear-sky index is kept as clear',
  demo=PRE+'''
i = pd.date_range('2020-01-01', periods=3, freq='h')
m = rdtools.csi_filter(pd.Series([100., 0, 100], i), pd.Series([100., 0, 100], i))
sys.exit(0 if list(m) == [True, False, True] else 1)
'''),
 dict(id='c10-hampel-mad', property='C10',
  edits=[(F, "    median_abs_deviation = difference.rolling(k, center=True, min_periods=1).median()", "    median_abs_deviation = difference.rolling(k, center=True, min_periods=2).median()")],
  needs='an isolated point (alone in its window)',
  breaks='a lone point is dropped as an outlier',
  demo=PRE+'''
i = pd.DatetimeIndex(['2020-01-01', '2020-03-01', '2020-03-02', '2020-03-03'])
m = rdtools.hampel_filter(pd.Series([1., 1, 1, 1], i))
sys.exit(0 if m.all() else 1)
'''),
 dict(id='c10-twoway-combine', property='C10',
  edits=[(F, "    backward_dif.fillna(0, inplace=True)\n", "    backward_dif.fillna(forward_dif, inplace=True)\n")],
  needs='an outlier within the first four points of the record or after a gap',
  breaks='a point with too little history is dropped although it must be kept on that side',
  demo=PRE+'''
i = pd.date_range('2020-01-01', periods=30)
v = np.ones(30); v[1] = 1.5
m = rdtools.two_way_window_filter(pd.Series(v, i))
sys.exit(0 if m.iloc[1] else 1)
'''),
 dict(id='c27-fillna', property='C27',
  edits=[('rdtools/utilities.py', """    small = x.astype(float).fillna(0).quantile(q) / 1000
    mdn = x[x > small].median()""", """    small = x.astype(float).quantile(q) / 1000
    mdn = x[x > small].median()""")],
  needs='mostly-NaN data with tiny positive values, so that the threshold falls to zero when NaN count as zero',
  breaks='the median differs between missing-as-NaN and missing-as-zero data',
  demo=PRE+'''
from rdtools.utilities import robust_median
a = pd.Series([np.nan] * 200 + [1000., 1e-6, 1e-6]); 
sys.exit(0 if abs(robust_median(a) - robust_median(a.fillna(0))) < 1e-12 else 1)
'''),
]
