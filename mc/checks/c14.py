"""C14 TrendAnalysis == the documented pipeline of public functions, step by step."""
import numpy as np
import pandas as pd

from mc import ta
from mc.lib import *  # noqa

ASSUMPTIONS = ['the public functions themselves are decided by C01-C12 and C19-C21; here the composition is decided',
               'pvlib (solar position, clear sky, transposition, sapm_cell) is trusted',
               'random parts (confidence intervals, Monte Carlo) are compared under the same seed of the global random source']
LAT, LON = 39.7, -105.2
AZI = (180, 'series')

OPT = {
    'input': ['power', 'energy'],
    'model': ['pvwatts', 'rated', 'expected', 'nogamma', 'rated_unit', 'rated_small'],
    'temp': ['cell', 'ambient', 'ambient_wind', 'ambient_wind5', 'ambient_model', 'ambient_dict', 'both'],
    'interp': [None, '6h', '2h'],
    'maxdt': [None, '7h', '30h'],
    'other': ['same', 'shifted', 'coarse'],           # index of the measured inputs relative to pv
    'shape': ['regular', 'gaps', 'jitter', 'unsorted_names'],
    'tz': ['Etc/GMT+7', 'America/Denver', 'UTC', None],
    'freq': ['D', '2D', 'W', 'MS', '7D'],
    'filt': ['default', 'nofilter', 'insol', 'agg_none', 'adhoc'],
    'yoy': [{}, {'recenter': False}, {'exceedance_prob': 80}, {'confidence_level': 95}],
}


def gen(tier):
    def body(ch):
        c = {'case': ch.free('case', ['sensor', 'clearsky'])}
        for k, v in OPT.items():
            c[k] = v[ch.choose(k, list(range(len(v))))]
        c['cstemp'] = ch.choose('cstemp', ['cell', 'ambient', 'ambient_model']) if c['case'] == 'clearsky' else None
        if c['input'] == 'energy' and c['shape'] == 'gaps':
            return None
        return c
    return body


def build(c, days, step, wave=False):
    d = ta.data(days=days, step_h=step, tz=c.get('tz', 'Etc/GMT+7') if c.get('tz') != 'America/Denver' else 'Etc/GMT+7',
                start='2018-02-03', rd=-0.01)
    if c.get('tz') == 'America/Denver':
        d = {k: v.tz_convert('America/Denver') for k, v in d.items()}
    n = len(d['pv'])
    # also: a model that expects nothing while the sun shines
    d['expected'] = d['expected'].where(np.arange(n) % 113 != 57, 0.0)
    if days > 20:       # every measured input has gaps of its own, shorter and longer than each max_timedelta
        for j, k in enumerate(('poa', 'tcell', 'tamb', 'wind', 'expected', 'clear', 'tcell_cs', 'tamb_cs')):
            keep = np.ones(n, bool)
            for q in range(6):
                a = 60 + 40 * j + 330 * q
                keep[a:a + 4] = False
                keep[a + 20:a + 21] = False
            keep[200 + 40 * j:210 + 40 * j] = False
            d[k] = d[k][keep]
    if c.get('shape') == 'gaps':
        keep = np.ones(n, bool)
        keep[[k for k in range(n) if k % 61 == 17]] = False
        for a in (40, 900, 3000):
            keep[a:a + 11] = False
        d['pv'] = d['pv'][keep]
    elif c.get('shape') == 'jitter':
        i = d['pv'].index
        sec = np.array([(k * 37) % 50 - 20 for k in range(n)])
        d['pv'].index = i + pd.to_timedelta(sec, unit='s')
    elif c.get('shape') == 'unsorted_names':
        for k, v in d.items():
            v.index.name = 't_' + k
    if c.get('other') == 'shifted':
        for k in ('poa', 'tcell', 'tamb', 'wind', 'expected', 'clear', 'tcell_cs', 'tamb_cs'):
            d[k] = d[k].copy()
            d[k].index = d[k].index + pd.Timedelta('20min')
    elif c.get('other') == 'coarse':
        for k in ('tcell', 'tamb', 'wind', 'tcell_cs', 'tamb_cs'):
            d[k] = d[k].iloc[::2]
    d['lat'], d['lon'] = LAT, LON
    return d


def model_params(m):
    import pvlib
    if isinstance(m, dict):
        return m
    return pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS['sapm'][m or 'open_rack_glass_polymer']


def build_obj(c, d):
    """-> object, reference dict of prepared inputs"""
    import pvlib
    from rdtools import TrendAnalysis, energy_from_power, interpolate
    maxdt = pd.Timedelta(c['maxdt']) if c.get('maxdt') else None
    gamma = None if c.get('model') == 'nogamma' else -0.0037
    rated = {'rated': 5000.0, 'rated_unit': 1, 'rated_small': 0.8}.get(c.get('model'))
    pv = d['pv']
    if c['input'] == 'energy':
        pv = energy_from_power(pv)
    kw = dict(gamma_pdc=gamma, aggregation_freq=c.get('freq', 'D'), pv_input=c['input'], power_dc_rated=rated,
              interp_freq=c.get('interp'), max_timedelta=maxdt)
    if c.get('model') == 'expected':
        kw['power_expected'] = d['expected']
    t = c.get('temp', 'cell')
    tm = None
    if t in ('cell', 'both'):
        kw['temperature_cell'] = d['tcell']
    if t != 'cell':
        kw['temperature_ambient'] = d['tamb']
    wind = 0
    if t == 'ambient_wind':
        wind = d['wind']
    elif t == 'ambient_wind5':
        wind = 5
    if t == 'ambient_model' or c.get('cstemp') == 'ambient_model':
        tm = 'insulated_back_glass_polymer'
    elif t == 'ambient_dict':
        tm = {'a': -3.1, 'b': -0.06, 'deltaT': 2.0}
    kw['temperature_model'] = tm
    if wind is not 0:  # noqa
        kw['windspeed'] = wind
    obj = TrendAnalysis(pv, d['poa'], **kw)
    # ---- reference preparation
    if c.get('interp'):
        pv = interpolate(pv, c['interp'], maxdt)

    def on(s, index):
        return interpolate(s, index, maxdt)
    r = {'pv': pv, 'poa': on(d['poa'], pv.index), 'lat': d['lat'], 'lon': d['lon']}
    r['energy'] = energy_from_power(pv, max_timedelta=maxdt) if c['input'] == 'power' else pv
    r['expected'] = on(d['expected'], pv.index) if c.get('model') == 'expected' else None
    if t in ('cell', 'both'):
        r['tcell'] = on(d['tcell'], pv.index)
    elif r['expected'] is None:
        w = on(wind, pv.index) if isinstance(wind, pd.Series) else wind
        r['tcell'] = pvlib.temperature.sapm_cell(r['poa'], on(d['tamb'], pv.index), w, **model_params(tm))
    else:
        r['tcell'] = None
    if c['case'] == 'clearsky':
        ck = {}
        if c['cstemp'] == 'cell':
            ck['temperature_cell_clearsky'] = d['tcell_cs']
        else:
            ck['temperature_ambient_clearsky'] = d['tamb_cs']
        obj.set_clearsky(pvlib.location.Location(LAT, LON, 'Etc/GMT+7'), 180, 20, poa_global_clearsky=d['clear'], **ck)
        ei = r['energy'].index
        r['clear'] = on(d['clear'], ei)
        if c['cstemp'] == 'cell':
            r['tcell_cs'] = on(d['tcell_cs'], ei)
        else:
            r['tcell_cs'] = pvlib.temperature.sapm_cell(r['clear'], on(d['tamb_cs'], ei), 0, **model_params(tm))
    r['gamma'], r['rated'] = gamma, rated
    return obj, r


def filters(c, obj, r):
    from mc.checks.c13 import quiet
    fp = {'normalized_filter': {}, 'poa_filter': {}, 'tcell_filter': {}, 'clip_filter': {}, 'clearsky_filter': {'model': 'csi'}}
    ap = {'two_way_window_filter': {}}
    if c.get('model') == 'expected' and c.get('temp', 'cell') not in ('cell', 'both'):
        del fp['tcell_filter']
    if c['input'] == 'energy':
        del fp['clip_filter']
    f = c.get('filt', 'default')
    if f == 'nofilter':
        fp = {'poa_filter': {'poa_global_low': 50}}
        ap = {}
    elif f == 'insol':
        ap = {'insolation_filter': {}, 'two_way_window_filter': {'outlier_threshold': 0.05}}
    elif f == 'agg_none':
        ap = {}
    elif f == 'adhoc':
        i = r['energy'].index
        fp['ad_hoc_filter'] = pd.Series([k % 7 != 2 for k in range(len(i))], index=i)
        day = pd.date_range(i[0].normalize(), i[-1].normalize(), freq='D')
        ap['ad_hoc_filter'] = pd.Series([k % 11 != 3 for k in range(len(day))], index=day)
    if f == 'default':
        obj.filter_params['clearsky_filter'] = {'model': 'csi'}
        if c['input'] == 'energy':
            del obj.filter_params['clip_filter']
    else:
        quiet(lambda: (setattr(obj, 'filter_params', fp), setattr(obj, 'filter_params_aggregated', ap)))
    return fp, ap


def reference(c, r, fp, ap):
    """-> aggregated performance, insolation: kept values by time, plus whole"""
    from rdtools import aggregation_insol
    sen = c['case'] == 'sensor'
    en, ins = ta.norm(r['energy'], r['poa'] if sen else r['clear'], r['tcell'] if sen else r['tcell_cs'], r['gamma'], r['rated'],
                      r['expected'])
    m, _ = ta.masks(fp, en, r, c['case'])
    m = np.array(m, bool)
    if not m.any():
        raise Skip('all filtered')
    e, i = en[m], ins.reindex(en.index)[m]
    freq = c.get('freq', 'D')
    agg = aggregation_insol(e, i, freq)
    ai = i.resample(freq, origin='start_day').sum()
    am, _ = ta.agg_masks(ap, agg, ai)
    am = np.array(am, bool)
    if not am.any():
        raise Skip('all filtered')
    return agg[am].resample(freq, origin='start_day').asfreq(), ai[am].resample(freq, origin='start_day').asfreq(), m, en


def cmp(got, exp, what):
    check(len(got) == len(exp) and (ns_of(got.index) == ns_of(exp.index)), '%s: index differs: %d/%d %s %s', what, len(got), len(exp),
          got.index[:2], exp.index[:2])
    check(same_values(got.to_numpy(float), exp.to_numpy(float)), '%s: values differ: %s', what,
          [(str(t), a, b) for t, a, b in zip(exp.index, got, exp) if not same_float(a, b)][:4])
    check(str(got.index.tz) == str(exp.index.tz), '%s: time zone', what)


def same(a, b):
    if isinstance(a, pd.DataFrame):
        return isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and a.index.equals(b.index) and all(
            same(a[k], b[k]) for k in a.columns)
    if isinstance(a, pd.Series) and isinstance(b, pd.Series):
        if not a.index.equals(b.index):
            return False
        if a.dtype.kind in 'fi':
            return same_values(a, b)
        return a.equals(b)
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and (same_values(a, b) if a.dtype.kind == 'f' else (a == b).all())
    if isinstance(a, (float, np.floating, int)) and not isinstance(a, bool):
        return same_float(a, b)
    if a is None:
        return b is None
    return a == b


def run(case, obs):
    from rdtools import degradation_year_on_year
    c = case
    d = build(c, 780, 4)
    obj, r = build_obj(c, d)
    cmp(obj.pv_energy, r['energy'], 'pv_energy')
    fp, ap = filters(c, obj, r)
    agg, ai, m, en = reference(c, r, fp, ap)
    span = agg.index[-1] - agg.index[0]
    call = obj.sensor_analysis if c['case'] == 'sensor' else obj.clearsky_analysis
    if span < pd.Timedelta('730d'):
        expect_raises(ValueError, lambda: call(yoy_kwargs=c['yoy']), 'less than two years left')
        obs.outcome = 'short'
        obs.model()
        return
    np.random.seed(5)
    try:
        rd, ci, info = degradation_year_on_year(agg, **c['yoy'])
    except Exception as e:  # noqa
        expect_raises(type(e), lambda: call(yoy_kwargs=dict(c['yoy'])), 'same failure as the direct call')
        obs.outcome = type(e).__name__
        return
    np.random.seed(5)
    call(yoy_kwargs=dict(c['yoy']))
    pre = c['case']
    cmp(getattr(obj, pre + '_aggregated_performance'), agg, 'aggregated performance')
    cmp(getattr(obj, pre + '_aggregated_insolation'), ai, 'aggregated insolation')
    res = obj.results[pre]
    check(set(res) == {'yoy_degradation'}, 'results: %s', list(res))
    y = res['yoy_degradation']
    check(set(y) >= {'p50_rd', 'rd_confidence_interval', 'calc_info'}, 'yoy keys %s', list(y))
    check(same_float(y['p50_rd'], rd), 'p50_rd %s expected %s', y['p50_rd'], rd)
    check(same(y['calc_info'], info), 'calc_info differs from degradation_year_on_year')
    check(same(list(y['rd_confidence_interval']) if ci is not None else None, list(ci) if ci is not None else None), 'rd_confidence_interval %s expected %s', y['rd_confidence_interval'], ci)
    obs.model()
    obs.outcome = [round(float(rd), 9), int(m.sum()), len(agg)]


# ---- soiling and both
def gen_srr(tier):
    def body(ch):
        return {'case': ch.free('case', ['sensor', 'clearsky']), 'input': ch.choose('input', ['power', 'energy']),
                'model': ch.choose('model', ['pvwatts', 'rated', 'expected']), 'cstemp': 'cell',
                'analyses': ch.choose('an', [['srr_soiling'], ['yoy_degradation', 'srr_soiling'], ['srr_soiling', 'yoy_degradation'], []]),
                'days': ch.choose('days', [150, 100]),
                'freq': ch.choose('freq', ['D', '2D', 'W', 'h']),
                'filt': ch.choose('filt', ['default', 'agg_none', 'adhoc']),
                'tz': ch.choose('tz', ['Etc/GMT+7', 'America/Denver', None]),
                'srr': ch.choose('srr', [{}, {'method': 'perfect_clean'}, {'method': 'inferred_clean'}, {'clean_threshold': 0.05, 'day_scale': 7},
                                         {'confidence_level': 90, 'exceedance_prob': 80}, {'recenter': False}])}
    return body


def run_srr(case, obs):
    from rdtools import degradation_year_on_year
    from rdtools.soiling import soiling_srr
    c = dict(case)
    both = 'yoy_degradation' in c['analyses']
    days = 760 if both else c['days']
    d = build(c, days, 2 if not both else 4)
    # soiling: power falls by 0.5 %/day and is cleaned every 24 days
    i = d['pv'].index
    k = np.asarray((i - i[0]) / pd.Timedelta('1D')).astype(int)
    d['pv'] = d['pv'] / (1 - 0.14 * (k % 13 == 8) + 0.09 * (k % 17 == 5)) * (1 - 0.005 * (k % 24))
    obj, r = build_obj(c, d)
    fp, ap = filters(c, obj, r)
    agg, ai, m, en = reference(c, r, fp, ap)
    call = obj.sensor_analysis if c['case'] == 'sensor' else obj.clearsky_analysis
    srr = dict(c['srr'], reps=15)
    srr_in = dict(srr)
    if c['freq'] != 'D' and 'srr_soiling' in c['analyses']:
        expect_raises(ValueError, lambda: call(analyses=c['analyses'], srr_kwargs=srr), 'soiling without daily aggregation')
        check(c['case'] not in obj.results, 'a failed analysis left results')
        obs.outcome = 'notdaily'
        return

    def yoy():
        return degradation_year_on_year(agg)
    try:
        np.random.seed(9)
        ref1 = (yoy() if both else None, soiling_srr(agg, ai, **srr) if 'srr_soiling' in c['analyses'] else None)
    except Exception as e:  # noqa
        expect_raises(type(e), lambda: call(analyses=c['analyses'], srr_kwargs=srr), 'same failure as the direct call')
        obs.outcome = type(e).__name__
        return
    np.random.seed(9)
    call(analyses=c['analyses'], srr_kwargs=srr)
    check(srr == srr_in, 'srr_kwargs changed')
    res = obj.results[c['case']]
    check(set(res) == set(c['analyses']), 'results %s for analyses %s', list(res), c['analyses'])

    def match(ref):
        if ref[0] is not None:
            y = res['yoy_degradation']
            if not (same_float(y['p50_rd'], ref[0][0]) and same(list(y['rd_confidence_interval']), list(ref[0][1])) and same(y['calc_info'], ref[0][2])):
                return False
        if ref[1] is None:
            return True
        s = res['srr_soiling']
        return (same_float(s['p50_sratio'], ref[1][0]) and same(list(s['sratio_confidence_interval']), list(ref[1][1])) and
                same(s['calc_info'], ref[1][2]))
    ok = match(ref1)
    if not ok and both:
        np.random.seed(9)
        s = soiling_srr(agg, ai, **srr)
        ok = match((yoy(), s))
    check(ok, 'results differ from the direct calls: sr %s vs %s', res.get('srr_soiling', {}).get('p50_sratio'), ref1[1] and ref1[1][0])
    cmp(getattr(obj, c['case'] + '_aggregated_performance'), agg, 'aggregated performance')
    cmp(getattr(obj, c['case'] + '_aggregated_insolation'), ai, 'aggregated insolation')
    obs.model()
    obs.outcome = [round(float(ref1[1][0]), 9) if ref1[1] else None, len(agg), both]


# ---- modelled clear-sky irradiance
def gen_cs(tier):
    def body(ch):
        return {'case': ch.free('case', ['clearsky', 'sensor']), 'input': ch.choose('input', ['power', 'energy']),
                'step': ch.choose('step', [1.0, 0.5, 0.25]), 'gap': ch.choose('gap', [0, 1]),
                'tz': ch.choose('tz', ['Etc/GMT+7', 'America/Denver']),
                'azi': ch.choose('azi', [180, 90, 0]), 'tilt': ch.choose('tilt', [20, 0]),
                'albedo': ch.choose('albedo', [None, 0.6, 0]), 'method': ch.choose('method', [None, 'nrel_numba_no', 'pyephem_no']),
                'loc': ch.choose('loc', [[LAT, LON], [-33.0, 150.0]]), 'temp': ch.choose('temp', ['cell', 'ambient'])}
    return body


def run_cs(case, obs):
    import pvlib
    from rdtools import TrendAnalysis, energy_from_power, interpolate, irradiance_rescale, aggregation_insol
    c = case
    d = build({'tz': c['tz']}, 4, c['step'])
    if c['gap']:
        keep = np.ones(len(d['pv']), bool)
        keep[20:27] = False
        keep[41] = False
        d['pv'] = d['pv'][keep]
        d['poa'] = d['poa'][keep]
    d['poa'] = d['poa'].fillna(300.0)
    pv = d['pv'] if c['input'] == 'power' else energy_from_power(d['pv'])
    loc = pvlib.location.Location(c['loc'][0], c['loc'][1], 'Etc/GMT+7')
    obj = TrendAnalysis(pv, d['poa'], temperature_cell=d['tcell'], gamma_pdc=-0.004, pv_input=c['input'])
    times = pd.date_range(pv.index.min(), pv.index.max(), freq='1min')

    def orient(v, ser):
        return v
    az, ti = c['azi'], c['tilt']
    if 'series' in (az, ti):
        # series inputs are put on the index of the energy; a modelled irradiance then needs the one-minute values of pvlib,
        # which only works for scalars: documented as numeric or series, decided here for scalars only
        raise Skip('series orientation')
    kw = {}
    if c['albedo'] is not None:
        kw['albedo'] = c['albedo']
    meth = {'nrel_numba_no': 'nrel_numpy', 'pyephem_no': 'ephemeris', None: None}[c['method']]
    if meth:
        kw['solar_position_method'] = meth
    ck = {'temperature_cell_clearsky': d['tcell_cs']} if c['temp'] == 'cell' else {'temperature_ambient_clearsky': d['tamb_cs']}
    obj.set_clearsky(loc, az, ti, **ck, **kw)
    poa = interpolate(d['poa'], pv.index)
    sp = loc.get_solarposition(times, method=meth or 'nrel_numpy')
    cs = loc.get_clearsky(times, solar_position=sp)
    tot = pvlib.irradiance.get_total_irradiance(ti, az, sp['apparent_zenith'], sp['azimuth'], cs['dni'], cs['ghi'], cs['dhi'],
                                                albedo=0.25 if c['albedo'] is None else c['albedo'], model='isotropic')['poa_global']
    # mean over the minutes of the right-labelled interval
    lab = ns_of(poa.index)
    tm = ns_of(times)
    acc = [[] for _ in lab]
    j = 0
    for t, v in zip(tm, tot.to_numpy()):
        while lab[j] < t:
            j += 1
        acc[j].append(v)
    mod = pd.Series([np.mean(a) for a in acc], index=poa.index)
    mod.iloc[0] = NaN
    mod = irradiance_rescale(poa, mod, method='iterative')
    from mc.checks.c13 import quiet
    quiet(lambda: setattr(obj, 'filter_params', {'poa_filter': {}} if c['case'] == 'clearsky' else {'sensor_clearsky_filter': {'model': 'csi'}}))
    quiet(lambda: setattr(obj, 'filter_params_aggregated', {}))
    if c['case'] == 'clearsky':
        obj.clearsky_analysis(analyses=[])
    else:
        obj.sensor_analysis(analyses=[])
    got = obj.poa_global_clearsky
    # irradiance_rescale is a numerical fit: same accuracy as C04
    check(ns_of(got.index) == ns_of(mod.index), 'index of modelled clear-sky irradiance')
    check(same_values(got, mod, rtol=1e-6, atol=1e-6), 'modelled clear-sky irradiance differs: %s',
          [(str(t), a, b) for t, a, b in zip(mod.index, got, mod) if not same_float(a, b, 1e-6, 1e-6)][:3])
    energy = energy_from_power(pv) if c['input'] == 'power' else pv
    if c['case'] == 'clearsky':
        tc = interpolate(d['tcell_cs'], energy.index) if c['temp'] == 'cell' else \
            pvlib.temperature.sapm_cell(mod, interpolate(d['tamb_cs'], energy.index), 0, **model_params(None))
        en, ins = ta.norm(energy, mod, tc, -0.004, None)
        m = mod.reindex(en.index)
        m = ((m > 200) & (m < 1200)).to_numpy()
    else:
        from rdtools.filtering import clearsky_filter
        en, ins = ta.norm(energy, poa, interpolate(d['tcell'], pv.index), -0.004, None)
        m = clearsky_filter(poa, mod, model='csi').reindex(en.index).fillna(False).to_numpy(bool)
    agg = aggregation_insol(en[m], ins.reindex(en.index)[m], 'D')
    g = getattr(obj, c['case'] + '_aggregated_performance')
    check(ns_of(g.index) == ns_of(agg.index) and same_values(g, agg, rtol=1e-6), 'aggregate from modelled clear sky: %s expected %s',
          list(g)[:4], list(agg)[:4])
    obs.model()
    obs.outcome = [round(float(mod.max()), 3), round(float(agg.iloc[0]), 5)]


# ---- errors
def gen_err(tier):
    def body(ch):
        return {'case': ch.free('case', ['sensor', 'clearsky']), 'what': ch.free('w', ['short', 'span729', 'span731', 'empty']),
                'freq': ch.free('freq', ['D', '2D'])}
    return body


def run_err(case, obs):
    c = {'case': case['case'], 'input': 'power', 'cstemp': 'cell', 'freq': case['freq']}
    d = build(c, {'short': 500, 'span729': 730, 'span731': 733, 'empty': 740}[case['what']], 4)
    obj, r = build_obj(c, d)
    fp, ap = filters(c, obj, r)
    call = obj.sensor_analysis if c['case'] == 'sensor' else obj.clearsky_analysis
    if case['what'] == 'empty':
        obj.filter_params['poa_filter'] = {'poa_global_low': 1e6}
        expect_raises(ValueError, call, 'everything filtered')
    elif case['what'] == 'span731':
        agg = reference(c, r, fp, ap)[0]
        check(agg.index[-1] - agg.index[0] >= pd.Timedelta('730d'), 'harness')
        call()
        check(np.isfinite(obj.results[c['case']]['yoy_degradation']['p50_rd']), 'no rate')
    else:
        expect_raises(ValueError, call, 'less than two years of data')
        check(c['case'] not in obj.results, 'results of a failed analysis')
    obs.model()
    obs.outcome = [case['what'], case['freq']]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'yoy', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'srr', 'gen': gen_srr(tier), 'run': run_srr, 'bound': 1 if q else 3},
            {'name': 'modelled', 'gen': gen_cs(tier), 'run': run_cs, 'bound': 2 if q else 3},
            {'name': 'errors', 'gen': gen_err(tier), 'run': run_err, 'bound': 0}]
