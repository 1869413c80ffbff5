"""C07 uncertainty of the year-on-year rate.  The set of *all* random draws is enumerated in the
model (n**n resamples of n slopes; N**blocks circular block arrangements); the implementation's
interval must be the stated percentile of that exact distribution, up to the finite number of
repetitions (6 sigma), and every bootstrap rate must be one of the reachable rates."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import models
from mc.lib import *  # noqa

ASSUMPTIONS = ['number of bootstrap repetitions: at least 1000', 'numpy global random state seeded per case']
SIG = {'simple': 0.03, 'block': 0.095}


def band(dist_vals, dist_w, p, delta):
    """[lower, upper] of the percentile p (0..100) of a weighted discrete distribution, p +/- delta"""
    order = np.argsort(dist_vals)
    v, w = np.asarray(dist_vals)[order], np.asarray(dist_w, float)[order]
    cum = np.cumsum(w) / w.sum()
    lo = max(0.0, p / 100 - delta)
    hi = min(1.0, p / 100 + delta)
    i = int(np.searchsorted(cum, lo - 1e-12))
    j = int(np.searchsorted(cum, hi - 1e-12))
    return v[min(i, len(v) - 1)], v[min(j + 1, len(v) - 1)]


def check_interval(ci, exc, cl, ep, vals, w, delta, what):
    lo, hi = float(ci[0]), float(ci[1])
    check(len(ci) == 2 and lo <= hi, '%s: interval not ordered: %s', what, ci)
    mn, mx = min(vals), max(vals)
    tol = 1e-9 * max(1, abs(mn), abs(mx))
    for x, nm in ((lo, 'lower'), (hi, 'upper'), (float(exc), 'exceedance')):
        check(mn - tol <= x <= mx + tol, '%s: %s %s outside the range of reachable rates [%s, %s]', what, nm, x, mn, mx)
    for x, p, nm in ((lo, 50 - cl / 2, 'lower'), (hi, 50 + cl / 2, 'upper'), (float(exc), 100 - ep, 'exceedance')):
        a, b = band(vals, w, p, delta)
        check(a - tol <= x <= b + tol, '%s: %s bound %s is not the %s percentile (allowed [%s, %s])', what, nm, x, p, a, b)


def series_from_slopes(n, kind):
    """series over ~2 years with exactly n one-year pairs"""
    t, v = [], []
    a = pd.Timestamp('2019-03-01')
    pat = {'spread': [0, 5, -3, 8, -6, 2, 10], 'skew': [0, 1, 0, 2, 1, 30, 40], 'neg': [-1, -2, -3, -4, -5, -6, -7], 'const': [1] * 7,
           'pair': [-10, 10, -10, 10, -10, 10, -10]}[kind]
    for i in range(n):
        t.append(a + pd.Timedelta(days=10 * i))
        v.append(1.0)
        t.append(a + pd.Timedelta(days=10 * i) + pd.DateOffset(years=1))
        v.append(1.0 + pat[i] / 100)
    # extend to two years without any pair (two years after start, one-year-earlier value missing)
    t.append(a + pd.DateOffset(years=2) + pd.Timedelta(days=120))
    v.append(0.9)
    s = pd.Series(v, index=pd.DatetimeIndex(t)).sort_index()
    return s


def gen(tier):
    def body(ch):
        return {'n': ch.free('n', [5, 3, 1, 2, 4] + ([6] if tier != 'quick' else [])),
                'kind': ch.free('kind', ['spread', 'skew', 'neg', 'const', 'pair']),
                'cl': ch.free('cl', [68.2, 95, 50, 0, 100, 30]), 'ep': ch.free('ep', [95, 50, 5, 80, 100]),
                'recenter': ch.choose('recenter', [True, False]), 'seed': ch.choose('seed', [1, 2])}
    return body


def run(case, obs):
    from rdtools import degradation_year_on_year as f
    c = case
    s = series_from_slopes(c['n'], c['kind'])
    ref = models.yoy(list(s.index), list(s), c['recenter'])
    sl = list(ref['slopes'].values())
    if len(sl) != c['n']:
        raise CheckError('construction: %d slopes' % len(sl))
    np.random.seed(c['seed'])
    rd, ci, info = f(s, c['recenter'], c['ep'], c['cl'])
    check(same_float(rd, ref['rate'], 1e-8), 'rate %s expected %s', rd, ref['rate'])
    vals = {}
    for draw in itertools.product(range(c['n']), repeat=c['n']):
        m = median([sl[i] for i in draw])
        vals[m] = vals.get(m, 0) + 1
    check_interval(ci, info['exceedance_level'], c['cl'], c['ep'], list(vals), list(vals.values()), SIG['simple'], 'simple')
    # same draws: the interval widens with the confidence level, the exceedance level falls with its probability
    np.random.seed(c['seed'])
    again = f(s, c['recenter'], c['ep'], c['cl'])
    if list(again[1]) == list(ci) and c['seed'] == 1:
        np.random.seed(c['seed'])
        _, wide, i2 = f(s, recenter=c['recenter'], exceedance_prob=min(100, c['ep'] + 3), confidence_level=min(100, c['cl'] + 5),
                        uncertainty_method='simple')
        check(wide[0] <= ci[0] + 1e-12 and wide[1] >= ci[1] - 1e-12, 'interval shrank with confidence level: %s -> %s', ci, wide)
        check(i2['exceedance_level'] <= info['exceedance_level'] + 1e-12, 'exceedance level rose with its probability')
    for m in (None, 'none', 'bogus', False):
        r = f(s, recenter=c['recenter'], uncertainty_method=m)
        check(np.isscalar(r) and same_float(r, rd), 'method %r returned %r', m, r)
    obs.model(3)
    obs.inner(1, len(vals), c['n'] ** c['n'])
    obs.outcome = [round(float(x), 6) for x in ci] + [round(float(info['exceedance_level']), 6)]


# ------------------------------------------------------------------ circular block
def gen_block(tier):
    def body(ch):
        return {'N': ch.free('N', [25, 24]), 'bl': ch.choose('bl', [8, 'third', 7]), 'kind': ch.free('kind', ['noise', 'season']),
                'cl': ch.choose('cl', [68.2, 95, 30]), 'ep': ch.choose('ep', [95, 50, 20]),
                'recenter': ch.choose('recenter', [True, False]), 'nan': ch.choose('nan', [None]),
                'freq': ch.choose('freq', ['MS', '61D'])}
    return body


def run_block(case, obs):
    from rdtools import degradation_year_on_year as f
    c = case
    N = c['N']
    idx = pd.date_range('2019-01-01', periods=N, freq=c['freq'])
    v = np.array([1.0 - 0.001 * i + (((i * 17) % 7) / 100 if c['kind'] == 'noise' else 0.05 * math.sin(i)) for i in range(N)])
    s = pd.Series(v, index=idx)
    bl = N // 3 if c['bl'] == 'third' else c['bl']
    ref = models.yoy(list(idx), list(v), c['recenter'])
    np.random.seed(3)
    rd, ci, info = f(s, recenter=c['recenter'], exceedance_prob=c['ep'], confidence_level=c['cl'],
                     uncertainty_method='circular_block', block_length=bl)
    check(same_float(rd, ref['rate'], 1e-8), 'rate %s expected %s', rd, ref['rate'])
    check(same_float(info['renormalizing_factor'], ref['renorm']), 'renorm')
    expect_series(info['usage_of_points'], ns_of(idx), ref['usage'], 'usage')
    rates = np.asarray(info['bootstrap_rates'], dtype=float)
    check(len(rates) >= 1000, 'only %d bootstrap rates', len(rates))
    exp = np.percentile(rates, [50 - c['cl'] / 2, 50 + c['cl'] / 2, 100 - c['ep']])
    check(same_values([ci[0], ci[1], info['exceedance_level']], exp), 'interval %s %s is not the percentile of the rates %s',
          ci, info['exceedance_level'], exp)
    # every draw of the model
    e = v / ref['renorm']
    days = (idx[-1] - idx[0]).days / N
    trend = 1 + rd / 100 / 365.0 * np.arange(N) * days
    resid = e / trend
    nb = -(-N // bl)
    starts = np.array(list(itertools.product(range(N), repeat=nb))) if N ** nb <= 400000 else None
    if starts is None:
        raise CheckError('too many draws')
    pos = np.concatenate([(starts[:, [k]] + np.arange(bl)) % N for k in range(nb)], axis=1)[:, :N]
    samples = trend * resid[pos]
    pairs = []
    probe = models.yoy(list(idx), [1.0] * N, False)
    tv = [x.value for x in idx]
    sh = [(x + pd.DateOffset(years=1)).value for x in idx]
    for i in sorted(probe['slopes']):
        k = max((j for j in range(N) if sh[j] <= tv[i]), key=lambda j: sh[j])
        pairs.append((i, k, (tv[i] - tv[k]) / (365 * DAY)))
    sl = np.stack([100 * (samples[:, i] - samples[:, k]) / y for i, k, y in pairs], axis=1)
    med = np.median(sl, axis=1)
    uniq, cnt = np.unique(np.round(med, 10), return_counts=True)
    # reachability of every implementation rate
    pos_ = np.clip(np.searchsorted(uniq, rates), 1, len(uniq) - 1)
    near = np.minimum(np.abs(uniq[pos_] - rates), np.abs(uniq[pos_ - 1] - rates))
    bad = near > 1e-7
    check(not bad.any(), '%d bootstrap rates are not reachable by circular blocks of length %d, e.g. %s', bad.sum(), bl, rates[bad][:3])
    check_interval(ci, info['exceedance_level'], c['cl'], c['ep'], uniq, cnt, SIG['block'], 'circular_block')
    obs.model()
    obs.inner(1, len(uniq), len(starts))
    obs.outcome = [round(float(rd), 6), bl, c['cl'], c['ep']]


def gen_err(tier):
    def body(ch):
        return {'what': ch.free('what', ['irregular', 'long', 'ok', 'long_daily', 'ok_daily_none', 'short']), 'N': ch.free('N', [24, 25, 27, 30, 36]),
                'rec': ch.free('rec', [True, False])}
    return body


def run_err(case, obs):
    from rdtools import degradation_year_on_year as f
    N = case['N']
    idx = pd.date_range('2019-01-01', periods=N, freq='MS')
    s = pd.Series(np.linspace(1, 0.95, N), index=idx)
    w = case['what']
    kw = dict(recenter=case['rec'], uncertainty_method='circular_block')
    if w == 'irregular':
        expect_raises(ValueError, lambda: f(s.drop(idx[4]), block_length=2, **kw), 'irregular')
    elif w == 'long':
        b = N // 3 + 1
        expect_raises(ValueError, lambda: f(s, block_length=b, **kw), 'block length %d of %d' % (b, N))
    elif w == 'long_daily':
        expect_raises(ValueError, lambda: f(s, **kw), 'default block length 30 of %d' % N)
    elif w == 'short':
        expect_raises(ValueError, lambda: f(s.iloc[:20], block_length=2, **kw), 'short')
    elif w == 'ok':
        r = f(s.iloc[::-1] if case['rec'] else s, block_length=N // 3, **kw)
        check(len(r) == 3 and r[1][0] <= r[1][1], 'block length of one third refused')
    else:
        r = f(s.drop(idx[4]), recenter=case['rec'], uncertainty_method=None, block_length=1000)
        check(np.isscalar(r), 'block length matters without block bootstrap')
    obs.model()
    obs.outcome = [w, N]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'simple', 'gen': gen(tier), 'run': run, 'bound': 0 if q else 2},
            {'name': 'block', 'gen': gen_block(tier), 'run': run_block, 'bound': 1 if q else 3},
            {'name': 'errors', 'gen': gen_err(tier), 'run': run_err, 'bound': 0}]
