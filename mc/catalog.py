"""Catalogue of public calls: name -> maker(variant) -> (callable, args, kwargs) on fresh deterministic data.

Variants: 0 base; 1 other values on the same index; 2 other options on the same data; 'bad' a call that is expected to fail
(or at least to be at the edge of the domain).
"""
import math

import numpy as np
import pandas as pd

from mc import ta

_N = [((k * 7919 + 13) % 101) / 101.0 - 0.5 for k in range(6000)]


def plt_():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    return plt


_D = {}


def sysdata(v, days=6, step=1.0):
    """system data, values depend on the variant; always fresh objects"""
    key = (days, step)
    if key not in _D:
        _D[key] = ta.data(days=days, step_h=step)
    f = 1.0 if v in (0, 2, 'bad') else 0.83
    return {k: (s * f).rename(k) for k, s in _D[key].items()}


def yearly(v, n=800, freq='D', tz='Etc/GMT+7'):
    i = pd.date_range('2017-01-01', periods=n, freq=freq, tz=tz)
    a = 0.02 if v != 1 else 0.05
    return pd.Series([1 - 0.00003 * k + a * _N[k] for k in range(n)], index=i, name='energy')


def soil(v, n=100):
    i = pd.date_range('2020-01-05', periods=n, freq='D', tz='Etc/GMT+7')
    r = 0.004 if v != 1 else 0.006
    pm = pd.Series([1 - r * (k % 25) + 0.004 * _N[k] for k in range(n)], index=i, name='pm')
    ins = pd.Series([4 + math.sin(k / 9.0) for k in range(n)], index=i, name='insolation')
    pr = pd.Series([1.0 if k % 25 == 0 else 0.0 for k in range(n)], index=i, name='rain')
    return pm, ins, pr


SRR = dict(reps=4, day_scale=5, min_interval_length=5)
_S = {}


def soil_result(v):
    if v not in _S:
        from rdtools.soiling import soiling_srr
        st = np.random.get_state()
        np.random.seed(3)
        pm, ins, pr = soil(v)
        _S[v] = soiling_srr(pm, ins, **SRR)[2]
        np.random.set_state(st)
    import copy
    return copy.deepcopy(_S[v])


def avail(v, n=24 * 12):
    i = pd.date_range('2021-06-01', periods=n, freq='h', tz='Etc/GMT+7')
    g = 1.0 if v != 1 else 0.7
    sun = np.array([max(0.0, math.sin((k % 24 - 5.5) / 14 * math.pi)) * (1 + 0.2 * _N[k]) for k in range(n)]) * g
    sub = pd.DataFrame({'a': 10 * sun, 'b': 11 * sun}, index=i)
    exp = pd.Series(22 * sun, index=i, name='exp')
    sub.iloc[24 * 5 + 8:24 * 5 + 15, 0] = 0.0
    meter = sub.sum(axis=1).rename('meter')
    cum = (meter.cumsum() + 500).rename('cum')
    for a, b in ((24 * 8, 24 * 9 + 6),):
        sub.iloc[a:b] = np.nan
        meter.iloc[a:b] = np.nan
        cum.iloc[a:b] = np.nan
    return meter, sub, cum, exp


def yoy_result(v, n=500):
    s = yearly(v, n)
    y = pd.Series([-0.8 + 2 * _N[k + (7 if v == 1 else 0)] for k in range(n - 365)], index=s.index[365:])
    return -0.8, np.array([-1.1, -0.4]), {'YoY_values': y, 'renormalizing_factor': 0.99, 'exceedance_level': -1.0,
                                          'usage_of_points': pd.Series([k % 3 for k in range(n)], index=s.index)}, s


def C():
    """name -> maker"""
    import rdtools as R
    from rdtools import normalization as NZ, filtering as F, plotting as P, soiling as S, bootstrap as B
    out = {}

    def add(name):
        def deco(f):
            out[name] = f
            return f
        return deco

    @add('normalize_with_expected_power')
    def _(v):
        d = sysdata(v)
        return NZ.normalize_with_expected_power, (d['pv'], d['expected'], d['poa']), {'pv_input': {0: 'power', 1: 'power', 2: 'energy', 'bad': 'x'}[v]}

    @add('pvwatts_dc_power')
    def _(v):
        d = sysdata(v)
        return NZ.pvwatts_dc_power, (d['poa'], 5000.0), ({'temperature_cell': d['tcell'], 'gamma_pdc': -0.004} if v != 2 else {})

    @add('normalize_with_pvwatts')
    def _(v):
        d = sysdata(v)
        kw = {'poa_global': d['poa'], 'power_dc_rated': 5000.0, 'temperature_cell': d['tcell'], 'gamma_pdc': -0.004}
        if v == 2:
            kw.update(temperature_cell_ref=20, poa_global_ref=900)
        if v == 'bad':
            kw.pop('power_dc_rated')
        return NZ.normalize_with_pvwatts, (d['pv'], kw), {}

    @add('irradiance_rescale')
    def _(v):
        d = sysdata(v)
        return NZ.irradiance_rescale, (d['poa'], d['clear']), {0: {}, 1: {}, 2: {'max_iterations': 150, 'convergence_threshold': 1e-2}, 'bad': {'max_iterations': 1, 'convergence_threshold': 1e-30}}[v]

    @add('irradiance_rescale_single')
    def _(v):
        d = sysdata(v)
        return NZ.irradiance_rescale, (d['poa'], d['clear']), {'method': 'single_opt' if v != 'bad' else 'x'}

    @add('energy_from_power')
    def _(v):
        d = sysdata(v)
        return NZ.energy_from_power, (d['pv'],), {0: {}, 1: {}, 2: {'target_frequency': '2h', 'max_timedelta': pd.Timedelta('3h')},
                                                  'bad': {'power_type': 'x'}}[v]

    @add('energy_from_power_up')
    def _(v):
        d = sysdata(v)
        return NZ.energy_from_power, (d['pv'],), {'target_frequency': '20min' if v != 'bad' else 'nonsense'}

    @add('interpolate')
    def _(v):
        d = sysdata(v)
        return NZ.interpolate, (d['pv'], '40min' if v != 2 else d['poa'].index[3:90:2] + pd.Timedelta('7min')), \
            {'max_timedelta': pd.Timedelta('90min') if v != 'bad' else 'x'}

    @add('interpolate_frame')
    def _(v):
        d = sysdata(v)
        f = pd.DataFrame({'a': d['pv'], 'b': d['poa']})
        return NZ.interpolate, (f, '40min'), ({} if v != 2 else {'max_timedelta': pd.Timedelta('3h'), 'warning_threshold': 0.5})

    @add('degradation_ols')
    def _(v):
        return R.degradation_ols, (yearly(v),), ({} if v != 2 else {'confidence_level': 90})

    @add('degradation_classical_decomposition')
    def _(v):
        return R.degradation_classical_decomposition, (yearly(v, 800 if v != 'bad' else 300, '1D'),), ({} if v != 2 else {'confidence_level': 90})

    @add('degradation_year_on_year')
    def _(v):
        return R.degradation_year_on_year, (yearly(v, 760 if v != 'bad' else 300),), \
            ({} if v != 2 else {'recenter': False, 'exceedance_prob': 70, 'confidence_level': 95, 'uncertainty_method': None})

    @add('degradation_year_on_year_block')
    def _(v):
        return R.degradation_year_on_year, (yearly(v, 110, '7D'),), {'uncertainty_method': 'circular_block' if v != 'bad' else 'x', 'block_length': 5 if v != 2 else 9}

    @add('bootstrap')
    def _(v):
        s = yearly(v, 60, '30D')
        fit = s.rolling(5, center=True, min_periods=1).mean()
        return B._make_time_series_bootstrap_samples, (s, fit), {'decomposition_type': 'multiplicative' if v != 2 else 'additive', 'sample_nr': 3,
                                                                 'bootstrap_seed': {0: 4, 1: 4, 2: 5, 'bad': 'x'}[v]}

    @add('aggregation_insol')
    def _(v):
        d = sysdata(v)
        return R.aggregation_insol, (d['pv'] / 1000, d['poa']), {'frequency': {0: 'D', 1: 'D', 2: '2D', 'bad': 'xx'}[v]}

    @add('get_clearsky_tamb')
    def _(v):
        from mc.checks import c26
        c26.install(72, 36, 'rough')
        t = pd.date_range('2020-03-06' if v != 1 else '2020-07-06', periods=100, freq='h', tz='America/Denver')
        la, lo = (39.7, -105.2) if v != 1 else (-20.0, 30.0)
        return R.get_clearsky_tamb, (t if v != 'bad' else t.tz_localize(None), la, lo), ({} if v != 2 else {'window_size': 9, 'gauss_std': 4})

    @add('normalized_filter')
    def _(v):
        d = sysdata(v)
        return F.normalized_filter, (d['pv'] / 5000,), ({} if v != 2 else {'energy_normalized_low': None, 'energy_normalized_high': 0.5})

    @add('poa_filter')
    def _(v):
        return F.poa_filter, (sysdata(v)['poa'],), ({} if v != 2 else {'poa_global_low': 400, 'poa_global_high': 700})

    @add('tcell_filter')
    def _(v):
        return F.tcell_filter, (sysdata(v)['tcell'],), ({} if v != 2 else {'temperature_cell_low': 10, 'temperature_cell_high': 30})

    @add('csi_filter')
    def _(v):
        d = sysdata(v)
        return F.csi_filter, (d['poa'], d['clear']), ({} if v != 2 else {'threshold': 0.4})

    @add('clearsky_filter_pvlib')
    def _(v):
        d = sysdata(v, 2, 0.25)
        p, c = d['poa'].interpolate(), d['clear']
        return F.clearsky_filter, (p, c), {'model': 'pvlib' if v != 'bad' else 'x', **({'window_length': 90} if v == 2 else {'window_length': 60})}

    @add('quantile_clip_filter')
    def _(v):
        return F.clip_filter, (sysdata(v)['pv'],), {'model': 'quantile', **({'quantile': 0.5} if v == 2 else {})} if v != 'bad' else {'model': 'x'}

    @add('logic_clip_filter')
    def _(v):
        d = sysdata(v, 3, 0.5)
        return F.logic_clip_filter, (d['pv'],), {'mounting_type': {2: 'single_axis_tracking', 'bad': 'x'}.get(v, 'fixed')}

    @add('xgboost_clip_filter')
    def _(v):
        d = sysdata(v, 3, 0.5)
        return F.xgboost_clip_filter, (d['pv'],), {'mounting_type': {2: 'single_axis_tracking', 'bad': 'x'}.get(v, 'fixed')}

    @add('two_way_window_filter')
    def _(v):
        return F.two_way_window_filter, (yearly(v, 200),), ({} if v != 2 else {'roll_period': pd.Timedelta('3D'), 'outlier_threshold': 0.005})

    @add('insolation_filter')
    def _(v):
        return F.insolation_filter, (soil(v)[1],), ({} if v != 2 else {'quantile': 0.6})

    @add('hampel_filter')
    def _(v):
        return F.hampel_filter, (yearly(v, 200),), ({} if v != 2 else {'k': '3d', 't0': 1})

    @add('directional_tukey_filter')
    def _(v):
        return F.directional_tukey_filter, (yearly(v, 200),), ({} if v != 2 else {'roll_period': pd.Timedelta('4D'), 'k': 0.3})

    @add('hour_angle_filter')
    def _(v):
        return F.hour_angle_filter, (sysdata(v, 2)['pv'], 39.7 if v != 1 else -20.0, -105.2 if v != 1 else 30.0), ({} if v != 2 else {'min_hour_angle': -70, 'max_hour_angle': 10})

    @add('robust')
    def _(v):
        s = sysdata(v)['pv']
        return (lambda x, q: (R.robust_quantile(x, q), R.robust_median(x, q), R.robust_mean(x, q))), (s, 0.98 if v != 2 else 0.5), {}

    @add('soiling_srr')
    def _(v):
        pm, ins, pr = soil(v)
        kw = dict(SRR)
        if v == 2:
            kw.update(clean_criterion='precip_or_shift', method='random_clean', recenter=False, reps=5, day_scale=7, min_interval_length=7,
                      max_relative_slope_error=80, max_negative_step=0.02, exceedance_prob=80, confidence_level=90, outlier_factor=1.1, trim=True, clean_threshold=0.03, precip_threshold=2)
        if v == 'bad':
            kw.update(min_interval_length=90)
        return S.soiling_srr, (pm, ins), {'precipitation_daily': pr, **kw}

    @add('annual_soiling_ratios')
    def _(v):
        i = soil_result(1 if v == 1 else 0)
        return S.annual_soiling_ratios, (i['stochastic_soiling_profiles'], soil(0)[1] if v != 'bad' else soil(0)[1].iloc[:0]), \
            ({} if v != 2 else {'confidence_level': 90})

    @add('monthly_soiling_rates')
    def _(v):
        i = soil_result(1 if v == 1 else 0)
        return S.monthly_soiling_rates, (i['soiling_interval_summary'],), {'reps': 50, 'min_interval_length': {2: 3, 'bad': 10**6}.get(v, 5)}

    @add('cods_decomposition')
    def _(v):
        n = 740
        pm, ins, pr = soil(v, n)
        def f(e, **k):                                                            # noqa
            return S.CODSAnalysis(e).iterative_signal_decomposition(**k)
        return f, (pm if v != 'bad' else pm.iloc[:1],), {'max_iterations': 2, **({'order': ('SC', 'SR', 'Rd'), 'degradation_method': 'STL', 'max_iterations': 3, 'cleaning_sensitivity': 0.3, 'soiling_significance': 0.1, 'process_noise': 1e-3} if v == 2 else {})}

    @add('AvailabilityAnalysis')
    def _(v):
        meter, sub, cum, exp = avail(v)

        def f(meter, sub, cum, exp, **kw):
            a = R.AvailabilityAnalysis(meter, sub, cum, exp)
            a.run(**kw)
            return [a.loss_system, a.loss_subsystem, a.loss_total, a.results, a.outage_info, a.energy_expected_rescaled]
        return f, (meter, sub, cum, exp), {2: {'low_threshold': 0.5, 'rollup_period': 'D', 'quantiles': (0.2, 0.8), 'relative_sizes': pd.Series([0.4, 0.6], index=['a', 'b']), 'power_system_limit': 9.0}, 'bad': {'rollup_period': 'xx'}}.get(v, {})

    @add('degradation_summary_plots')
    def _(v):
        rd, ci, info, s = yoy_result(v)
        kw = {2: {'detailed': True, 'bins': 5}, 'bad': {'bins': 'x'}}.get(v, {})
        return (lambda *a, **k: figdata(P.degradation_summary_plots(*a, **k))), (rd, ci, info, s), kw

    @add('degradation_timeseries_plot')
    def _(v):
        info = yoy_result(v)[2]
        if v == 'bad':
            info.pop('YoY_values')
        return (lambda *a, **k: figdata(P.degradation_timeseries_plot(*a, **k))), (info,), {'rolling_days': 30 if v != 2 else 20, 'include_ci': v == 2}

    @add('soiling_monte_carlo_plot')
    def _(v):
        return (lambda *a, **k: figdata(P.soiling_monte_carlo_plot(*a, **k))), (soil_result(1 if v == 1 else 0), soil(v)[0]), ({} if v != 2 else {'profiles': 2})

    @add('soiling_interval_plot')
    def _(v):
        return (lambda *a, **k: figdata(P.soiling_interval_plot(*a, **k))), (soil_result(1 if v == 1 else 0), soil(v)[0]), ({} if v != 2 else {'ymin': 0.5})

    @add('soiling_rate_histogram')
    def _(v):
        return (lambda *a, **k: figdata(P.soiling_rate_histogram(*a, **k))), (soil_result(1 if v == 1 else 0),), ({} if v != 2 else {'bins': 3})

    @add('availability_summary_plots')
    def _(v):
        meter, sub, cum, exp = avail(v)
        i = meter.index
        info = pd.DataFrame({'start': [i[10], i[100]], 'end': [i[14], i[110]], 'energy_start': [1.0, 2.0], 'energy_expected': [5.0, 6.0],
                             'ci_lower': [4.0, 5.5], 'ci_upper': [7.0, 6.5]}, index=[0, 1] if v != 1 else [7, 3])
        if v == 'bad':
            info = info.drop(columns='ci_upper')
        return (lambda *a, **k: figdata(P.availability_summary_plots(*a, **k))), (meter.fillna(0), sub, meter * 0.1, cum, exp, info), {}

    @add('tune_filter_plot')
    def _(v):
        s = sysdata(v, 2)['pv']
        m = s > (1000 if v != 2 else 2000)

        def f(s, m):
            fig = P.tune_filter_plot(s, m)
            return [(t.name, list(map(str, t.x)), [float(x) for x in t.y]) for t in fig.data]
        return f, (s, m if v != 'bad' else m.iloc[:3].to_list()), {}

    @add('TrendAnalysis_sensor')
    def _(v):
        d = sysdata(v, 800, 6.0)
        fp = {'poa_filter': {'poa_global_low': 100 if v != 2 else 160}, 'ad_hoc_filter': pd.Series(d['pv'].index.hour != 6, index=d['pv'].index)}
        if v == 1:                       # boolean masks with missing values, per time and per day
            fp['ad_hoc_filter'] = holes(fp['ad_hoc_filter'])
        if v == 'bad':
            fp = {'nonsense': {}}
        fpa = {'two_way_window_filter': {'roll_period': pd.Timedelta('9D')}}
        if v == 1:
            fpa['ad_hoc_filter'] = holes(daymask(d['pv']))
        return trend_call, ('sensor', {k: d[k] for k in ('pv', 'poa', 'tcell', 'tamb', 'wind', 'expected')}, fp, fpa, {'yoy_kwargs': {'recenter': v != 2}}), {}

    @add('TrendAnalysis_clearsky')
    def _(v):
        d = sysdata(v, 800, 6.0)
        fp = {'clearsky_filter': {'model': 'csi', 'threshold': 0.2}, 'poa_filter': {'poa_global_low': 100 if v != 2 else 160}}
        if v == 'bad':
            fp = {'clearsky_filter': {'model': 'nonsense'}}
        return trend_call, ('clearsky', {k: d[k] for k in ('pv', 'poa', 'tamb', 'wind', 'clear', 'tamb_cs')}, fp, {}, {'yoy_kwargs': {'recenter': v != 2}}), {}

    @add('TrendAnalysis_soiling')
    def _(v):
        d = sysdata(v, 120, 6.0)
        d['pv'] = d['pv'] * np.array([1 - (0.008 if v != 1 else 0.006) * (k // 4 % 25) for k in range(len(d['pv']))])
        return trend_call, ('sensor', {k: d[k] for k in ('pv', 'poa', 'tcell')}, {'normalized_filter': {}}, {}, {'analyses': ['srr_soiling'], 'srr_kwargs': dict(SRR, max_relative_slope_error=1e5)}), {}
    return out


def holes(m):
    m = m.astype(object)
    m.iloc[[2, 10, 11]] = np.nan
    return m


def daymask(s):
    i = s.index.normalize().unique()
    return pd.Series([k % 5 != 3 for k in range(len(i))], index=i)


def trend_call(case, d, fp, fpa, kw):
    """constructor, configuration and one or two analyses on the caller's objects"""
    import pvlib
    from rdtools import TrendAnalysis
    a = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d.get('tcell'), temperature_ambient=d.get('tamb'), windspeed=d.get('wind', 0), gamma_pdc=-0.004,
                      power_dc_rated=5000.0, aggregation_freq='D', power_expected=d.get('expected'))
    if 'clear' in d:
        a.set_clearsky(pvlib_location=pvlib.location.Location(39.7, -105.2, tz='Etc/GMT+7', altitude=1500), poa_global_clearsky=d['clear'],
                       temperature_ambient_clearsky=d['tamb_cs'])
    a.filter_params = fp
    a.filter_params_aggregated = fpa
    run = a.sensor_analysis if case == 'sensor' else a.clearsky_analysis
    run(**kw)
    run(**kw)
    r = a.results[case]
    out = []
    for k in sorted(r):
        q = r[k]
        out.append((k, {z: q[z] for z in q if z not in ('calc_info',)}))
        ci = q.get('calc_info', {})
        out.append(ci.get('YoY_values'))
        out.append(ci.get('renormalizing_factor'))
        out.append(ci.get('soiling_interval_summary'))
    out.append(a.sensor_aggregated_performance if case == 'sensor' else a.clearsky_aggregated_performance)
    return out


def figdata(fig):
    out = []
    for ax in fig.axes:
        out.append([np.asarray(l.get_xdata(orig=False), float) for l in ax.lines])
        out.append([np.asarray(np.ma.filled(np.ma.asarray(l.get_ydata(orig=False), float), np.nan)) for l in ax.lines])
        out.append([(p.get_x(), p.get_height()) for p in ax.patches if hasattr(p, 'get_height')])
        out.append([np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan) for c in ax.collections])
        out.append([p.vertices for c in ax.collections for p in c.get_paths()][:50])
        out.append((ax.get_xlabel(), ax.get_ylabel(), [t.get_text() for t in ax.texts], len(ax.texts)))
    out.append(len(fig.axes))
    return out


VARIANTS = [0, 1, 2, 'bad']


# ------------------------------------------------------------------ snapshots of arguments
def snapshot(x, depth=0):
    """everything observable about an argument, as a hashable structure"""
    import hashlib
    if isinstance(x, pd.Series):
        return ('S', _arr(x.array), str(x.dtype), repr(x.name), snapshot(x.index), repr(x.attrs), x.flags.allows_duplicate_labels)
    if isinstance(x, pd.DataFrame):
        return ('F', tuple(repr(c) for c in x.columns), snapshot(x.columns), snapshot(x.index), tuple(_arr(x.iloc[:, k].array) for k in range(x.shape[1])),
                tuple(map(str, x.dtypes)), repr(x.attrs))
    if isinstance(x, pd.DatetimeIndex):
        return ('T', hashlib.sha1(np.ascontiguousarray(x.asi8).tobytes()).hexdigest(), str(x.tz), str(x.freq), repr(x.names), str(x.dtype))
    if isinstance(x, pd.Index):
        return ('I', repr(x.tolist()), repr(x.names), str(x.dtype))
    if isinstance(x, np.ndarray):
        return ('A', x.shape, str(x.dtype), hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, dict):
        return ('D', type(x).__name__, tuple((repr(k), snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v) for v in x))
    return repr(x) if not callable(x) else 'callable'


def _arr(a):
    import hashlib
    v = a.to_numpy()
    if v.dtype == object:
        return repr([z for z in v])
    return hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()


def diff(a, b, path='arg'):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (p, q) in enumerate(zip(a, b)):
            if p != q:
                return diff(p, q, '%s.%s' % (path, k if not isinstance(a[0], str) else '%s%d' % (a[0], k)))
    return '%s: %s -> %s' % (path, str(a)[:200], str(b)[:200])


SHAPES = ['plain', 'unnamed', 'named', 'nofreq', 'nan', 'naive', 'utc', 'int', 'reversed', 'dup', 'f32', 'short', 'empty', 'seconds', 'infs', 'column']


def reshape(x, shape, top=True):
    """the same argument in another shape (applied to every series, frame and index inside)"""
    if isinstance(x, dict):
        return {k: reshape(v, shape, False) for k, v in x.items()}
    if isinstance(x, list):
        return [reshape(v, shape, False) for v in x]
    if isinstance(x, tuple):
        return tuple(reshape(v, shape, False) for v in x)
    if isinstance(x, pd.DatetimeIndex):
        return _index(x, shape)
    if isinstance(x, (pd.Series, pd.DataFrame)) and isinstance(x.index, pd.DatetimeIndex):
        y = x.copy()
        num = isinstance(y, pd.Series) and y.dtype.kind == 'f'
        if shape == 'unnamed' and isinstance(y, pd.Series):
            y.name = None
        elif shape == 'named':
            if isinstance(y, pd.Series):
                y.name = 'my name'
            y.index = y.index.rename('my index')
        elif shape == 'nan' and num and len(y) > 7:
            y.iloc[[1, len(y) // 2, -2]] = np.nan
        elif shape == 'infs' and num and len(y) > 7:
            y.iloc[[3, len(y) // 3]] = np.inf
        elif shape == 'int' and num:
            y = (y * 10).fillna(0).replace([np.inf, -np.inf], 0).astype(int)
        elif shape == 'f32' and num:
            y = y.astype('float32')
        elif shape == 'reversed':
            y = y.iloc[::-1]
        elif shape == 'dup' and len(y) > 5:
            y = pd.concat([y.iloc[:4], y.iloc[3:]])
        elif shape == 'short':
            y = y.iloc[:3]
        elif shape == 'empty':
            y = y.iloc[:0]
        elif shape == 'column' and isinstance(y, pd.Series):
            y = pd.DataFrame({'other': 1.0, 'x': y})['x']
        else:
            y.index = _index(y.index, shape)
        return y
    return x


def _index(i, shape):
    if shape == 'nofreq':
        j = i.copy()
        j.freq = None
        return pd.DatetimeIndex(j)
    if shape == 'naive' and i.tz is not None:
        return i.tz_localize(None)
    if shape == 'utc' and i.tz is not None:
        return i.tz_convert('UTC')
    if shape == 'seconds':
        return i.as_unit('s')
    if shape == 'named':
        return i.rename('my index')
    return i
