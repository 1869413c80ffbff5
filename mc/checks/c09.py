"""C09 pointwise threshold filters, every assignment of boundary values."""
import math

import numpy as np
import pandas as pd
import pvlib

from mc import models
from mc.lib import *  # noqa

ASSUMPTIONS = ['index unique; alphabets hold values just below / at / just above every bound, NaN and infinities']
INF = math.inf
EPS = 1e-7
TZS = [None, 'UTC', 'US/Eastern']


def mkidx(n, kind, tz=None):
    if kind == 'range':
        return pd.RangeIndex(n)
    i = pd.date_range('2020-03-07 22:00', periods=n, freq='1h', tz=tz)
    if kind == 'rev':
        return i[::-1]
    if kind == 'shuf':
        return i[[(k * 3 + 1) % n for k in range(n)] if n % 3 else list(range(n))[::-1]]
    return i


FILTERS = {
    'normalized': dict(lo=[0.01, None, 0.2, -1, 0], hi=[None, 1.5, 1.0, 0], dlo=0.01, dhi=None),
    'poa': dict(lo=[200, 0, 350.5, -20], hi=[1200, 800, 0], dlo=200, dhi=1200),
    'tcell': dict(lo=[-50, 0, 25], hi=[110, 60.5, 0], dlo=-50, dhi=110),
}


def gen(tier):
    def body(ch):
        f = ch.free('filter', list(FILTERS))
        F = FILTERS[f]
        lo, hi = ch.free('lo', F['lo']), ch.free('hi', F['hi'])
        a = -1e3 if lo is None else lo
        b = 1e3 if hi is None else hi
        mid = (a + b) / 2
        alpha = [mid, 'nan', a, b, a - EPS, a + EPS * 10, b - EPS * 10, b + EPS, INF, -INF, 0.0, 1e9, -1e9]
        n = 4
        return {'f': f, 'lo': lo, 'hi': hi, 'v': [str(ch.choose('v%d' % i, alpha)) for i in range(n)],
                'kw': ch.choose('kw', ['pos', 'kw', 'default', 'lo_only', 'hi_only']),
                'idx': ch.choose('idx', ['asc', 'rev', 'range', 'shuf']), 'tz': ch.choose('tz', TZS)}
    return body


def run(case, obs):
    import rdtools
    c = case
    F = FILTERS[c['f']]
    fn = {'normalized': rdtools.normalized_filter, 'poa': rdtools.poa_filter, 'tcell': rdtools.tcell_filter}[c['f']]
    names = {'normalized': ('energy_normalized_low', 'energy_normalized_high'), 'poa': ('poa_global_low', 'poa_global_high'),
             'tcell': ('temperature_cell_low', 'temperature_cell_high')}[c['f']]
    v = [float(x) for x in c['v']]
    lo, hi = c['lo'], c['hi']
    s = pd.Series(v, index=mkidx(len(v), c['idx'], c['tz']), name='q')
    if c['kw'] == 'pos':
        got = fn(s, lo, hi)
    elif c['kw'] == 'kw':
        got = fn(s, **{names[1]: hi, names[0]: lo})
    elif c['kw'] == 'lo_only':
        hi = F['dhi']
        got = fn(s, **{names[0]: lo})
    elif c['kw'] == 'hi_only':
        lo = F['dlo']
        got = fn(s, **{names[1]: hi})
    else:
        lo, hi = F['dlo'], F['dhi']
        got = fn(s)
    L = -INF if lo is None else lo
    H = INF if hi is None else hi
    expect_mask(got, s.index, [x > L and x < H for x in v], c['f'])
    obs.model()
    obs.outcome = [bool(b) for b in got]


# ---- csi
def gen_csi(tier):
    def body(ch):
        thr = ch.free('thr', [0.15, 0.25, 0.0, 1.0])
        r = [1.0, 'nan', 1 - thr - 1e-6, 1 - thr + 1e-6, 1 + thr - 1e-6, 1 + thr + 1e-6, 'edge_lo', 'edge_hi', 0.0, 'inf', 'cs0', 'csnan', 'zz', -1.0, 2.5]
        return {'thr': thr, 'r': [str(ch.choose('r%d' % i, r)) for i in range(4)], 'cs': ch.choose('cs', [1024.0, 3.0]),
                'how': ch.choose('how', ['pos', 'kw', 'default', 'wrap', 'wrap_kw']), 'mis': ch.choose('mis', [None, 'order', 'extra'])}
    return body


def run_csi(case, obs):
    import rdtools
    c = case
    thr = 0.15 if c['how'] in ('default', 'wrap') else c['thr']
    m, k = [], []
    for r in c['r']:
        cs = c['cs']
        if r == 'cs0':
            cs, x = 0.0, 5.0
        elif r == 'csnan':
            cs, x = NaN, 5.0
        elif r == 'zz':
            cs, x = 0.0, 0.0
        elif r == 'edge_lo':
            cs, x = 1.0, 1.0 - thr
        elif r == 'edge_hi':
            cs, x = 1.0, 1.0 + thr
        else:
            x = float(r) * cs
        m.append(x)
        k.append(cs)
    i = mkidx(4, 'asc', 'UTC')
    M, K = pd.Series(m, index=i), pd.Series(k, index=i)
    exp = []
    for x, cs in zip(m, k):
        q = np.float64(x) / np.float64(cs)
        exp.append(bool(1.0 - thr <= q <= 1.0 + thr))
    if c['mis'] == 'order':
        K = K.iloc[::-1]
    extra = False
    if c['mis'] == 'extra':
        K = pd.concat([K, pd.Series([5.0], index=[i[-1] + pd.Timedelta('1h')])])
        extra = True
    f = {'pos': lambda: rdtools.csi_filter(M, K, thr), 'kw': lambda: rdtools.csi_filter(poa_global_measured=M, poa_global_clearsky=K, threshold=thr),
         'default': lambda: rdtools.csi_filter(M, K), 'wrap': lambda: rdtools.clearsky_filter(M, K, model='csi'),
         'wrap_kw': lambda: rdtools.clearsky_filter(M, K, model='csi', threshold=thr)}[c['how']]
    got = f()
    if extra or c['mis'] == 'order':
        got = got.sort_index()
        if extra:
            check(len(got) == 5 and not bool(got.iloc[4]), 'timestamp without measurement was kept')
            got = got.iloc[:4]
    expect_mask(got, i, exp, 'csi')
    obs.model()
    obs.outcome = exp


# ---- quantile filters
def gen_q(tier):
    def body(ch):
        n = ch.free('n', [7, 2, 1, 12] if tier == 'quick' else [9, 7, 2, 1, 15])
        alpha = [100.0, 'nan', 0.0, 99.0, 98.99, 200.0, 0.05, 50.0]
        return {'v': [str(ch.choose('v%d' % i, alpha)) for i in range(n)], 'f': ch.free('f', ['clip', 'insol']),
                'q': ch.free('q', ['default', 0.98, 0.5, 0.9, 0.0, 1.0, 0.1]),
                'how': ch.choose('how', ['pos', 'kw', 'wrap']), 'idx': ch.choose('idx', ['asc', 'rev', 'range']),
                'ramp': ch.choose('ramp', [False, True])}
    return body


def run_q(case, obs):
    import rdtools
    c = case
    v = [float(x) for x in c['v']]
    if c['ramp']:
        v = [x + 3.0 * i for i, x in enumerate(v)]
    s = pd.Series(v, index=mkidx(len(v), c['idx']))
    kw = c['q'] != 'default'
    if c['f'] == 'clip':
        q = c['q'] if kw else 0.98
        lim = models.robust_quantile(v, q) * 0.99
        exp = [x < lim for x in v]
        band = [abs(x - lim) < 1e-9 * max(1.0, abs(lim)) for x in v]
        if not kw:
            got = rdtools.quantile_clip_filter(s) if c['how'] != 'wrap' else rdtools.clip_filter(s, 'quantile')
        elif c['how'] == 'pos':
            got = rdtools.quantile_clip_filter(s, q)
        elif c['how'] == 'kw':
            got = rdtools.quantile_clip_filter(power_ac=s, quantile=q)
        else:
            got = rdtools.clip_filter(s, model='quantile', quantile=q)
    else:
        q = c['q'] if kw else 0.1
        lim = quantile([x for x in v if not isnan(x)], q)
        exp = [x >= lim for x in v]
        band = [abs(x - lim) < 1e-9 * max(1.0, abs(lim)) and x != lim for x in v]
        got = rdtools.insolation_filter(s) if not kw else rdtools.insolation_filter(s, q) if c['how'] == 'pos' \
            else rdtools.insolation_filter(insolation=s, quantile=q)
    g = [bool(b) for b in got]
    exp = [gg if b else e for gg, e, b in zip(g, exp, band)]      # float ties are not decided
    expect_mask(got, s.index, exp, c['f'])
    obs.model()
    obs.outcome = g


# ---- hour angle
def gen_h(tier):
    def body(ch):
        return {'lon': ch.free('lon', [-105.0, 0.0, 139.7, -179.9, 179.9]), 'lat': ch.free('lat', [39.7, 0.0, -33.0]),
                'tz': ch.free('tz', ['UTC', 'US/Mountain', 'Asia/Tokyo', None]),
                'lim': ch.free('lim', ['default', [-30, 30], [-15, 45], [0, 0.5], [-180, 180], [10, -10]]),
                'start': ch.free('start', ['2020-03-08', '2020-06-21', '2020-11-01', '2020-12-31']),
                'how': ch.choose('how', ['pos', 'kw', 'rev'])}
    return body


def run_h(case, obs):
    import rdtools
    c = case
    i = pd.date_range(c['start'], periods=100, freq='17min', tz=c['tz'])
    if c['how'] == 'rev':
        i = i[::-1]
    s = pd.Series(1.0, index=i)
    s.iloc[5] = NaN
    lo, hi = (-30, 30) if c['lim'] == 'default' else c['lim']
    # independent hour angle: solar time = UTC + lon/15 h + equation of time
    eot = pvlib.solarposition.get_solarposition(i, c['lat'], c['lon'])['equation_of_time'].to_numpy()
    exp, band = [], []
    for t, e in zip(i, eot):
        u = t.tz_convert('UTC') if t.tzinfo else t
        ha = 15 * (u.hour + u.minute / 60 + u.second / 3600 - 12) + c['lon'] + e / 4
        ha = (ha + 180) % 360 - 180
        exp.append(lo <= ha <= hi)
        band.append(min(abs(ha - lo), abs(ha - hi), 180 - abs(ha)) < 1e-6)
    if c['lim'] == 'default':
        got = rdtools.hour_angle_filter(s, c['lat'], c['lon'])
    elif c['how'] == 'kw':
        got = rdtools.hour_angle_filter(s, lat=c['lat'], lon=c['lon'], max_hour_angle=hi, min_hour_angle=lo)
    else:
        got = rdtools.hour_angle_filter(s, c['lat'], c['lon'], lo, hi)
    exp = [bool(g) if b else e for g, e, b in zip(got, exp, band)]
    expect_mask(got, i, exp, 'hour angle')
    obs.model()
    obs.outcome = [int(b) for b in exp]


# ---- dispatch
def gen_d(tier):
    def body(ch):
        return {'which': ch.free('w', ['clear', 'clip']),
                'model': ch.free('m', ['csi', 'pvlib', 'quantile', 'logic', 'xgboost', 'CSI', '', None, 'bogus', 'default']),
                'shape': ch.free('shape', ['clip', 'smooth'])}
    return body


def run_d(case, obs):
    import rdtools
    from mc.shapes import day
    x = day(case['shape'], step=15, days=2, tz='US/Eastern')
    c = x * 1.02
    w, m = case['which'], case['model']
    if w == 'clear':
        table = {'csi': lambda: rdtools.csi_filter(x, c), 'pvlib': lambda: rdtools.pvlib_clearsky_filter(x, c),
                 'default': lambda: rdtools.pvlib_clearsky_filter(x, c)}
        call = (lambda: rdtools.clearsky_filter(x, c)) if m == 'default' else (lambda: rdtools.clearsky_filter(x, c, m))
    else:
        table = {'quantile': lambda: rdtools.quantile_clip_filter(x), 'logic': lambda: rdtools.logic_clip_filter(x),
                 'xgboost': lambda: rdtools.xgboost_clip_filter(x), 'default': lambda: rdtools.logic_clip_filter(x)}
        call = (lambda: rdtools.clip_filter(x)) if m == 'default' else (lambda: rdtools.clip_filter(x, model=m))
    if m in table:
        a, b = call(), table[m]()
        check(a.equals(b), 'dispatch of %s differs from the named filter', m)
        obs.outcome = [int(z) for z in a]
    else:
        expect_raises(ValueError, call, 'unknown model %r' % m)
        obs.outcome = 'err'
    obs.model()


def families(tier):
    q = tier == 'quick'
    return [
        {'name': 'bounds', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 4},
        {'name': 'csi', 'gen': gen_csi(tier), 'run': run_csi, 'bound': 2 if q else 4},
        {'name': 'quantile', 'gen': gen_q(tier), 'run': run_q, 'bound': 2 if q else 4},
        {'name': 'hour_angle', 'gen': gen_h(tier), 'run': run_h, 'bound': 1},
        {'name': 'dispatch', 'gen': gen_d(tier), 'run': run_d, 'bound': 0},
    ]
