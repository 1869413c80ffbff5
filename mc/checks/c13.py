"""C13 TrendAnalysis masks == AND of exactly the configured filters."""
import io
import contextlib

import numpy as np
import pandas as pd

from mc import ta
from mc.lib import *  # noqa

ASSUMPTIONS = ['the single filters themselves are decided by C09-C12; here they are called directly on their documented input',
               'twelve days of half-hourly data in which every filter has points only it rejects']
LAT, LON = 39.7, -105.2
F = {
    'normalized_filter': [{}, None, {'energy_normalized_low': 0.5}, {'energy_normalized_low': None, 'energy_normalized_high': 1.0}],
    'poa_filter': [{}, None, {'poa_global_low': 500}, {'poa_global_high': 700}],
    'tcell_filter': [{}, None, {'temperature_cell_high': 30}, {'temperature_cell_low': 20}],
    'clip_filter': [{}, None, {'model': 'quantile', 'quantile': 0.8}, {'model': 'xgboost'}, {'rolling_range_max_cutoff': 5.0}],
    'hour_angle_filter': [None, {}, {'min_hour_angle': -60, 'max_hour_angle': 15}],
    'clearsky_filter': [{}, None, {'model': 'csi'}, {'model': 'csi', 'threshold': 0.05}, {'window_length': 200}],
    'sensor_clearsky_filter': [None, {}, {'model': 'csi'}, {'model': 'csi', 'threshold': 0.03}],
}
A = {
    'two_way_window_filter': [{}, None, {'outlier_threshold': 0.1}, {'roll_period': 6}],
    'insolation_filter': [None, {}, {'quantile': 0.4}],
    'hampel_filter': [None, {}, {'k': '5d', 't0': 1}],
    'directional_tukey_filter': [None, {}, {'k': 0.3}],
}
ADHOC = ['none', 'absent', 'mask', 'nan', 'short', 'long', 'allfalse', 'object', 'utc']


def gen(tier):
    def body(ch):
        return {'case': ch.free('case', ['sensor', 'clearsky']),
                'f': {k: ch.choose(k, list(range(len(v)))) for k, v in F.items()},
                'a': {k: ch.choose(k, list(range(len(v)))) for k, v in A.items()},
                'ad': ch.choose('ad', ADHOC), 'aad': ch.choose('aad', ADHOC[:7]),
                'order': ch.choose('order', [0, 1, 2]), 'how': ch.choose('how', ['assign', 'items', 'update']),
                'input': ch.choose('input', ['power', 'energy', 'expected', 'rated', 'energy_pwr']),
                'freq': ch.choose('freq', ['D', '2D', '12h']), 'miss': ch.choose('miss', ['', 'pv', 'tcell', 'clear', 'poa', 'day', 'all'])}
    return body


def knock_out(d, miss):
    """runs of missing readings, longer than what interpolation onto the index of pv fills in"""
    for k, cols in (('pv', ['pv']), ('tcell', ['tcell', 'tcell_cs']), ('clear', ['clear']), ('poa', ['poa', 'expected'])):
        if miss in (k, 'all'):
            for col in cols:
                v = d[col].to_numpy(copy=True)
                for a in (24, 66, 127, 218, 313, 416, 500):
                    a += {'pv': 0, 'tcell': 5, 'clear': 9, 'poa': 13}[k]
                    v[a:a + 3] = np.nan
                d[col] = pd.Series(v, d[col].index, name=d[col].name)
    if miss == 'day':
        v = d['pv'].to_numpy(copy=True)
        v[48 * 5:48 * 6] = np.nan
        d['pv'] = pd.Series(v, d['pv'].index, name='pv')


def mk_adhoc(kind, idx, salt):
    if kind in ('none', 'absent'):
        return None
    v = [(i * 7 + salt) % 5 != 0 for i in range(len(idx))]
    s = pd.Series(v, index=idx)
    if kind == 'mask':
        return s
    if kind == 'allfalse':
        return s & False
    if kind == 'nan':
        s = s.astype(object)
        s.iloc[3::4] = np.nan
        return s
    if kind == 'object':
        return s.astype(object)
    if kind == 'short':
        return s.iloc[len(s) // 3: -2]
    if kind == 'long':
        s2 = s.copy()
        s2.index = s2.index + pd.Timedelta(days=5)
        return pd.concat([s, s2[s2.index > s.index[-1]]])
    if kind == 'utc':
        s.index = s.index.tz_convert('UTC')
        return s
    raise AssertionError(kind)


def order(d, o):
    ks = list(d)
    if o == 1:
        ks = ks[::-1]
    elif o == 2:
        ks = ks[2:] + ks[:2]
    return {k: d[k] for k in ks}


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def setup(c):
    """-> (object with configuration applied, data, fp, ap, ad-hoc builder for aggregated)"""
    import pvlib
    from rdtools import TrendAnalysis, energy_from_power
    d = ta.data(days=12, step_h=0.5)
    d['lat'], d['lon'] = LAT, LON
    knock_out(d, c['miss'])
    fp = {k: F[k][i] for k, i in c['f'].items() if F[k][i] is not None}
    ap = {k: A[k][i] for k, i in c['a'].items() if A[k][i] is not None}
    kw = dict(gamma_pdc=-0.004, aggregation_freq=c['freq'])
    if c['input'] in ('energy', 'energy_pwr'):
        pv = energy_from_power(d['pv'])
        obj = TrendAnalysis(pv, d['poa'], temperature_cell=d['tcell'], pv_input='energy', **kw)
        if c['input'] == 'energy':
            fp.pop('clip_filter', None)
        else:       # documented: power for the clipping filter may be assigned; it may cover less than the energy
            d['pv'] = d['pv'].iloc[30:-40]
            obj.pv_power = d['pv']
    elif c['input'] == 'expected':
        obj = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], power_expected=d['expected'], **kw)
    elif c['input'] == 'rated':
        obj = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], power_dc_rated=5000.0, **kw)
    else:
        obj = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], **kw)
    obj.set_clearsky(pvlib.location.Location(LAT, LON, 'Etc/GMT+7'), 180, 20, poa_global_clearsky=d['clear'],
                     temperature_cell_clearsky=d['tcell_cs'])
    energy = obj.pv_energy
    en, ins = ta.norm(energy, *((d['poa'], d['tcell']) if c['case'] == 'sensor' else
                                (d['clear'].reindex(energy.index), d['tcell_cs'].reindex(energy.index))),
                      -0.004, 5000.0 if c['input'] == 'rated' else None,
                      d['expected'] if c['input'] == 'expected' else None)
    # set_clearsky puts the clear-sky inputs on the index of the energy
    d['clear'] = d['clear'].reindex(energy.index)
    d['tcell_cs'] = d['tcell_cs'].reindex(energy.index)
    if c['input'] in ('energy', 'energy_pwr'):
        for k in ('poa', 'tcell'):
            d[k] = d[k].reindex(energy.index)
    if c['ad'] != 'absent':
        fp['ad_hoc_filter'] = mk_adhoc(c['ad'], d['poa'].index, 1)
    return obj, d, fp, ap, en, ins


def apply(obj, which, new, how):
    if how == 'assign':
        quiet(lambda: setattr(obj, which, new))
    else:
        cur = getattr(obj, which)
        for k in list(cur):
            del cur[k]
        if how == 'items':
            for k, v in new.items():
                cur[k] = v
        else:
            cur.update(new)


def run(case, obs):
    from rdtools import aggregation_insol
    c = case
    obj, d, fp, ap, en, ins = setup(c)
    fp = order(fp, c['order'])
    apply(obj, 'filter_params', fp, c['how'])
    exp, comp = ta.masks(fp, en, d, c['case'])
    m = pd.Series(exp, index=en.index)
    insf = ins.reindex(en.index)
    if not m.any():
        raise Skip('nothing left')
    agg = aggregation_insol(en[m], insf[m], c['freq'])
    ai = insf[m].resample(c['freq'], origin='start_day').sum()
    ap = order(ap, c['order'])
    if c['aad'] != 'absent':
        ap['ad_hoc_filter'] = mk_adhoc(c['aad'], agg.index, 2)
    apply(obj, 'filter_params_aggregated', ap, c['how'])
    aexp, acomp = ta.agg_masks(ap, agg, ai)
    if not any(aexp):
        raise Skip('nothing left')
    (obj.sensor_analysis if c['case'] == 'sensor' else obj.clearsky_analysis)(analyses=[])
    pre = c['case']
    got = getattr(obj, pre + '_filter')
    check(got.index.is_unique, 'mask index not unique')
    g = [bool(got.get(t, None)) if t in got.index else None for t in en.index]
    bad = [(str(en.index[i]), g[i], exp[i], [k for k in comp if not comp[k][i]]) for i in range(len(g)) if g[i] != exp[i]]
    check(not bad, '%s_filter: (time, got, expected, rejecting filters) %s', pre, bad[:4])
    ga = getattr(obj, pre + '_filter_aggregated')
    check([x.value for x in ga.index] == [x.value for x in agg.index], 'aggregated mask index')
    g = [bool(x) for x in ga]
    bad = [(str(agg.index[i]), g[i], aexp[i], [k for k in acomp if not acomp[k][i]]) for i in range(len(g)) if g[i] != aexp[i]]
    check(not bad, '%s_filter_aggregated: (time, got, expected, rejecting filters) %s', pre, bad[:4])
    # components: exactly the configured ones
    fc = getattr(obj, pre + '_filter_components')
    check(set(fc.columns) == set(comp), 'filter components %s, configured %s', list(fc.columns), list(comp))
    for k in comp:
        g = [bool(fc[k].get(t)) for t in en.index]
        check(g == comp[k], 'component %s differs', k)
    fa = getattr(obj, pre + '_filter_components_aggregated')
    check(set(fa.columns) == set(acomp), 'aggregated filter components %s, configured %s', list(fa.columns), list(acomp))
    # what was aggregated is what was kept
    perf = getattr(obj, pre + '_aggregated_performance')
    kept = {t.value: v for t, v, k in zip(agg.index, agg, aexp) if k}
    for t, v in perf.items():
        check(same_float(v, kept.get(t.value, NaN)), 'aggregated performance at %s: %s, expected %s', t, v, kept.get(t.value, NaN))
    check(set(kept) <= {t.value for t in perf.index}, 'kept aggregate missing from the result')
    obs.model()
    obs.outcome = [sum(exp), sum(aexp), c['case']]


# ---- filters whose data are missing
def gen_miss(tier):
    def body(ch):
        return {'what': ch.free('w', ['clip_energy', 'hour_noloc', 'tcell_none', 'cs_nopoa', 'no_poa', 'no_temp', 'cs_not_set',
                                      'scs_not_set', 'tcell_expected_default']),
                'freq': ch.free('freq', ['D', '2D'])}
    return body


def run_miss(case, obs):
    import pvlib
    from rdtools import TrendAnalysis, energy_from_power
    d = ta.data(days=12, step_h=0.5)
    w = case['what']
    kw = dict(gamma_pdc=-0.004, aggregation_freq=case['freq'])
    loc = pvlib.location.Location(LAT, LON, 'Etc/GMT+7')
    if w == 'clip_energy':
        o = TrendAnalysis(energy_from_power(d['pv']), d['poa'], temperature_cell=d['tcell'], pv_input='energy', **kw)
        expect_raises(ValueError, lambda: o.sensor_analysis(analyses=[]), w)
        del o.filter_params['clip_filter']
        o.sensor_analysis(analyses=[])
    elif w == 'hour_noloc':
        o = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], **kw)
        o.filter_params['hour_angle_filter'] = {}
        expect_raises(ValueError, lambda: o.sensor_analysis(analyses=[]), w)
    elif w == 'tcell_none':
        o = TrendAnalysis(d['pv'], d['poa'], power_expected=d['expected'], **kw)
        o.filter_params['tcell_filter'] = {}
        expect_raises(ValueError, lambda: o.sensor_analysis(analyses=[]), w)
    elif w == 'tcell_expected_default':
        o = TrendAnalysis(d['pv'], d['poa'], power_expected=d['expected'], **kw)
        check('tcell_filter' not in o.filter_params, 'tcell_filter on by default without cell temperature')
        o.sensor_analysis(analyses=[])
        o = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], power_expected=d['expected'], **kw)
        check('tcell_filter' in o.filter_params, 'tcell_filter dropped although cell temperature is given')
    elif w == 'cs_nopoa':
        o = TrendAnalysis(d['pv'], **kw)
        o.set_clearsky(loc, 180, 20, poa_global_clearsky=d['clear'], temperature_cell_clearsky=d['tcell_cs'])
        expect_raises(ValueError, lambda: o.clearsky_analysis(analyses=[]), w)
        del o.filter_params['clearsky_filter']
        o.clearsky_analysis(analyses=[])
    elif w == 'no_poa':
        o = TrendAnalysis(d['pv'], temperature_cell=d['tcell'], **kw)
        expect_raises(ValueError, lambda: o.sensor_analysis(analyses=[]), w)
    elif w == 'no_temp':
        o = TrendAnalysis(d['pv'], d['poa'], **kw)
        expect_raises(ValueError, lambda: o.sensor_analysis(analyses=[]), w)
    elif w == 'cs_not_set':
        o = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], **kw)
        expect_raises(Exception, lambda: o.clearsky_analysis(analyses=[]), w)
    elif w == 'scs_not_set':
        o = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], **kw)
        o.filter_params['sensor_clearsky_filter'] = {}
        expect_raises(Exception, lambda: o.sensor_analysis(analyses=[]), w)
    obs.model()
    obs.outcome = w


def families(tier):
    q = tier == 'quick'
    return [{'name': 'masks', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'missing', 'gen': gen_miss(tier), 'run': run_miss, 'bound': 0}]
