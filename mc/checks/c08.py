"""C08 OLS and classical decomposition vs. closed forms."""
import math

import numpy as np
import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = ['confidence intervals compared with the exact sampling distribution within 6 sigma of 10000 draws']
BASE = {
    'decay': lambda y, i: 1.0 - 0.012 * y,
    'season': lambda y, i: 0.97 - 0.02 * y + 0.08 * math.sin(2 * math.pi * y),
    'steps': lambda y, i: [1.0, 1.0, 0.75, 0.75][min(3, int(y * 1.5))],
    'const': lambda y, i: 0.875,
    'saw': lambda y, i: 1.0 + ((i * 5) % 8) / 64,
    'grow': lambda y, i: 0.5 + 0.05 * y + ((i * 3) % 5) / 128,
}


def ols(x, y):
    x, y = np.asarray(x, dtype=np.longdouble), np.asarray(y, dtype=np.longdouble)
    n = len(x)
    xm, ym = x.mean(), y.mean()
    sxx = ((x - xm) ** 2).sum()
    m = ((x - xm) * (y - ym)).sum() / sxx
    b = ym - m * xm
    r = y - b - m * x
    mse = (r ** 2).sum() / (n - 2)
    return dict(m=float(m), b=float(b), mse=float(mse), se_m=float(np.sqrt(mse / sxx)),
                se_b=float(np.sqrt(mse * (1 / n + xm ** 2 / sxx))), cov=float(-mse * xm / sxx), scale=float(np.abs(y).max()))


def cmp_fit(rd, ci, info, ref, cl, what, rng_band=True):
    a = 1e-9 * ref['scale']
    ok = lambda g, e, nm, at=a, rt=1e-6: check(same_float(g, e, rt, at), '%s: %s %s expected %s', what, nm, g, e)   # noqa
    ok(info['slope'], ref['m'], 'slope')
    ok(info['intercept'], ref['b'], 'intercept')
    ok(rd, 100 * ref['m'] / ref['b'], 'rate', 1e-7)
    ok(info['rmse'], math.sqrt(ref['mse']), 'rmse', 1e-8 * ref['scale'], 1e-5)
    ok(info['slope_stderr'], ref['se_m'], 'slope_stderr', 1e-8 * ref['scale'], 1e-5)
    ok(info['intercept_stderr'], ref['se_b'], 'intercept_stderr', 1e-8 * ref['scale'], 1e-5)
    check(len(ci) == 2 and ci[0] <= ci[1], '%s: interval not ordered %s', what, ci)
    if rng_band and ref['mse'] > 1e-12:
        g = np.random.Generator(np.random.PCG64(12345))
        cov = [[ref['se_b'] ** 2, ref['cov']], [ref['cov'], ref['se_m'] ** 2]]
        z = g.multivariate_normal([ref['b'], ref['m']], cov, 100000, method='eigh')
        d = 100 * z[:, 1] / z[:, 0]
        for x, p in ((ci[0], 50 - cl / 2), (ci[1], 50 + cl / 2)):
            lo, hi = np.percentile(d, [max(0, p - 3.5), min(100, p + 3.5)])
            if p <= 3.5:
                lo = -math.inf
            if p >= 96.5:
                hi = math.inf
            check(lo - 1e-9 <= x <= hi + 1e-9, '%s: interval bound %s is not the %s percentile (allowed [%s, %s])', what, x, p, lo, hi)


def mk(x):
    n = len(x)
    s = 0
    for i in range(n):
        for j in range(i + 1, n):
            s += int(x[j] > x[i]) - int(x[j] < x[i])
    ties = {}
    for v in x:
        ties[v] = ties.get(v, 0) + 1
    var = (n * (n - 1) * (2 * n + 5) - sum(t * (t - 1) * (2 * t + 5) for t in ties.values())) / 18
    if s == 0 or var <= 0:
        return 'no trend', 0.0
    z = (s - 1) / math.sqrt(var) if s > 0 else (s + 1) / math.sqrt(var)
    if abs(z) > 1.959963984540054:
        return ('increasing' if z > 0 else 'decreasing'), z
    return 'no trend', z


def mk_np(x):
    x = np.asarray(x)
    n = len(x)
    s = int(np.sign(np.subtract.outer(x, x))[np.tril_indices(n, -1)].sum())
    _, t = np.unique(x, return_counts=True)
    var = (n * (n - 1) * (2 * n + 5) - int((t * (t - 1) * (2 * t + 5)).sum())) / 18
    if s == 0 or var <= 0:
        return 'no trend', 0.0
    z = (s - 1) / math.sqrt(var) if s > 0 else (s + 1) / math.sqrt(var)
    return (('increasing' if z > 0 else 'decreasing') if abs(z) > 1.959963984540054 else 'no trend'), z


def gen_ols(tier):
    def body(ch):
        n = ch.free('n', [9, 4, 3])
        return {'n': n, 'base': ch.free('base', list(BASE)), 'step': ch.free('step', [30, 1, 91]),
                'slots': [ch.choose('s%d' % i, 'VNMOT') for i in range(n)],
                'tz': ch.choose('tz', [None, 'US/Eastern']), 'start': ch.choose('start', ['2019-12-15', '2020-03-01']),
                'cl': ch.choose('cl', [68.2, 95, 0, 30]), 'scale': ch.choose('scale', [1.0, 256.0]),
                'name': ch.choose('name', [None, 'days', 'x'])}
    return body


def run_ols(case, obs):
    from rdtools import degradation_ols
    c = case
    t0 = ts(c['start'])
    t, v = [], []
    for i, s in enumerate(c['slots']):
        if s == 'M':
            continue
        u = t0 + i * c['step'] * DAY + (7 * HOUR if s == 'T' else 0)
        x = BASE[c['base']](i * c['step'] / 365, i) + (0.25 if s == 'O' else 0)
        t.append(u)
        v.append(NaN if s == 'N' else x * c['scale'])
    ok = [i for i in range(len(t)) if not isnan(v[i])]
    if len(ok) < 3:
        raise Skip()
    s = pd.Series(v, index=mk_index(t, c['tz']), name=c['name'])
    ref = ols([(t[i] - t[0]) / DAY / 365 for i in ok], [v[i] for i in ok])
    np.random.seed(7)
    rd, ci, info = degradation_ols(s, c['cl']) if c['cl'] != 68.2 else degradation_ols(s)
    cmp_fit(rd, ci, info, ref, c['cl'], 'ols', rng_band=(sum(x != 'V' for x in c['slots']) < 2))
    if c['cl'] < 95:
        np.random.seed(7)
        _, wide, _ = degradation_ols(s, confidence_level=c['cl'] + 5)
        np.random.seed(7)
        _, same, _ = degradation_ols(s, confidence_level=c['cl'])
        if list(same) == list(ci):
            check(wide[0] <= ci[0] + 1e-12 and wide[1] >= ci[1] - 1e-12, 'interval shrank with the confidence level')
    obs.model()
    obs.outcome = [round(float(rd), 6)]


def gen_cd(tier):
    def body(ch):
        return {'freq': ch.free('freq', ['MS', '7D', '30D', '4380h'] + (['D'] if tier != 'quick' else [])),
                'years': ch.free('years', [2, 3, 1.5, 4]),
                'base': ch.free('base', list(BASE)),
                'bump': ch.choose('bump', [None, [2, 0.25], [7, -0.5], [12, 0.125], [1, 0.5], [14, 0.25]]),
                'bump2': ch.choose('bump2', [None, [3, 0.25], [8, 0.5], [13, -0.25]]),
                'tz': ch.choose('tz', [None, 'US/Eastern']),
                'cl': ch.choose('cl', [68.2, 90]), 'start': ch.choose('start', ['2019-01-01', '2020-02-01']),
                'scale': ch.choose('scale', [1.0, 512.0]), 'sign': ch.choose('sign', [1, -1]),
                'err': ch.choose('err', [None, 'nan', 'drop', 'nofreq', 'nan_edge'])}
    return body


def run_cd(case, obs):
    from rdtools import degradation_classical_decomposition as f
    c = case
    n = int(c['years'] * {'MS': 12, '7D': 52, '30D': 12, 'D': 365, '4380h': 2}[c['freq']]) + 2
    idx = pd.date_range(c['start'], periods=n, freq=c['freq'], tz=c['tz'])
    t = ns_of(idx)
    v = [BASE[c['base']](c['sign'] * (x - t[0]) / DAY / 365 + (3 if c['sign'] < 0 else 0), i) for i, x in enumerate(t)]
    for b in (c['bump'], c['bump2']):
        if b:
            v[b[0] % n] += b[1]
    v = [x * c['scale'] for x in v]
    s = pd.Series(v, index=idx)
    if c['err']:
        if c['err'] == 'nan':
            s.iloc[n // 2] = NaN
        elif c['err'] == 'nan_edge':
            s.iloc[0] = NaN
        elif c['err'] == 'drop':
            s = s.drop(idx[n // 2])
        else:
            s.index = pd.DatetimeIndex(list(s.index))
        expect_raises(ValueError, lambda: f(s), c['err'])
        obs.model()
        obs.outcome = c['err']
        return
    ma = []
    yrs = [(x - t[0]) / DAY / 365 for x in t]
    for i in range(n):
        if yrs[i] < 0.5 or yrs[i] > yrs[-1] - 0.5:
            ma.append(NaN)
        else:
            w = [v[j] for j in range(n) if t[i] - 182.5 * DAY < t[j] <= t[i] + 182.5 * DAY]
            ma.append(sum(w) / len(w))
    ok = [i for i in range(n) if not isnan(ma[i])]
    if len(ok) < 4:
        raise Skip()
    ref = ols([yrs[i] for i in ok], [ma[i] for i in ok])
    np.random.seed(7)
    rd, ci, info = f(s, c['cl']) if c['cl'] != 68.2 else f(s)
    expect_series(info['series'], t, ma, 'moving average')
    cmp_fit(rd, ci, info, ref, c['cl'], 'classical', rng_band=c['bump2'] is None)
    got = info['series'].dropna().to_numpy()
    trend, z = mk_np(got)
    if abs(abs(z) - 1.959963984540054) > 1e-9:
        check(info['mk_test_trend'] == trend, 'Mann-Kendall verdict %r, expected %r (z=%s, %d points, %d distinct)',
              info['mk_test_trend'], trend, z, len(got), len(np.unique(got)))
    obs.model()
    obs.outcome = [round(float(rd), 6), trend]


# ---- Mann-Kendall over all short patterns with ties, reached through the public function:
# a 365-day average of a series with period one year passes single-step changes through
def gen_mk(tier):
    def body(ch):
        k = ch.free('k', [6, 8])
        return {'lev': [ch.choose('l%d' % i, [0, 1, 2, -1]) for i in range(k)], 'freq': ch.free('freq', ['MS'])}
    return body


def run_mk(case, obs):
    from rdtools import degradation_classical_decomposition as f
    # yearly-periodic increments: v[i+12]-v[i] = d[i]  =>  moving average steps by d/12
    k = len(case['lev'])
    n = 12 + k
    idx = pd.date_range('2021-01-01', periods=n, freq='30D')
    v = [4.0] * n
    lv = case['lev']
    # window of the 30-day grid holds 12 or 13 points; choose values so that sums are exactly representable
    for i, d in enumerate(lv):
        v[12 + i] += 0.5 * d
    s = pd.Series(v, index=idx)
    np.random.seed(5)
    rd, ci, info = f(s)
    got = info['series'].dropna().to_numpy()
    trend, z = mk(list(got))
    if abs(abs(z) - 1.959963984540054) > 1e-9:
        check(info['mk_test_trend'] == trend, 'Mann-Kendall verdict %r, expected %r for %s (z=%s)', info['mk_test_trend'], trend, list(got), z)
    obs.model()
    obs.outcome = [trend, round(z, 6)]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'ols', 'gen': gen_ols(tier), 'run': run_ols, 'bound': 2 if q else 3},
            {'name': 'classical', 'gen': gen_cd(tier), 'run': run_cd, 'bound': 1 if q else 3},
            {'name': 'mann_kendall', 'gen': gen_mk(tier), 'run': run_mk, 'bound': 3 if q else 6}]
