"""C20 SRR Monte Carlo: every profile is one the intervals allow, and the reported numbers summarise exactly these profiles."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import srr, rng
from mc.checks.c19 import data, kwargs, reference, RAIN
from mc.lib import *  # noqa

ASSUMPTIONS = ['scipy.stats.mstats.theilslopes is trusted', 'the oracle holds for every sequence of draws; the shape of the distributions is judged on '
               'fixed seeds with a margin of seven standard errors', 'half-normal starts may in principle fall below zero (more than nine sigma); not judged']
METHODS = ['half_norm_clean', 'random_clean', 'perfect_clean']
DATA = [dict(n=64, cleans=[[20, 1.0], [41, 1.0]], rates=[-0.004, -0.006], noise=0.01, nans=[], day_scale=5),
        dict(n=64, cleans=[[14, 1.0], [28, 1.0], [42, 0.98]], rates=[-0.006, 0.004], noise=0.008, nans=[], day_scale=5),       # alternating invalid
        dict(n=64, cleans=[[14, 1.0], [28, 1.0], [42, 0.98]], rates=[0.004, -0.006], noise=0.008, nans=[], day_scale=5),       # invalid first
        dict(n=80, cleans=[[14, 1.0], [40, 1.0], [66, 0.98]], rates=[-0.006], noise=0.004, nans=[[25, 8], [50, 9]], day_scale=5),  # gaps
        dict(n=70, cleans=[[20, 0.97], [41, 1.03]], rates=[-0.004, -0.001, -0.006], noise=0.004, nans=[[30, 7]], day_scale=5),
        dict(n=96, cleans=[[16, 1.0], [32, 1.0], [48, 1.0], [64, 1.0], [80, 1.0]], rates=[-0.006, 0.004, 0.005, -0.004, 0.003, 0.006], noise=0.004, nans=[],
             day_scale=5)]
# many short intervals: 11 groups of valid+invalid intervals
MANY = dict(n=360, noise=0.0001, nans=[], day_scale=5)


def chk_profile(prof, rows, method, st, what):
    """one stochastic profile against the interval table (draw independent)"""
    k0 = rows[0]['a']
    v = prof.to_numpy(dtype=float)
    check(not np.isnan(v).any(), '%s has missing values', what)
    check((v <= 1 + 1e-9).all(), '%s exceeds 1', what)
    seg = []
    for r in rows:
        y = v[r['a'] - k0:r['b'] - k0 + 1]
        L = r['length']
        s = (y[-1] - y[0]) / L if L else 0.0
        check(same_values(y, y[0] + s * np.arange(L + 1), 1e-9, 1e-9), '%s is not linear in the interval starting on day %s', what, r['a'])
        if r['valid']:
            check(r['low'] - 1e-9 <= s <= r['high'] + 1e-9, '%s: slope %s outside [%s, %s]', what, s, r['low'], r['high'])
            if r['high'] - r['low'] > 1e-7:
                st.setdefault('slope', []).append((s - r['low']) / (r['high'] - r['low']))
        else:
            check(abs(s) < 1e-12, '%s: slope %s in an invalid interval', what, s)
        seg.append((y[0], y[-1], s))
    if method == 'perfect_clean':
        for (a, b, s), r in zip(seg, rows):
            check(same_float(a, 1.0), '%s: interval starts from %s', what, a)
        return
    prev = None
    for (a, b, s), r in zip(seg, rows):
        if not r['valid']:
            continue
        if prev is None:
            check(same_float(a, 1.0), '%s: first valid interval starts from %s', what, a)
        else:
            end, rec = prev
            if method == 'random_clean':
                check(min(end, 1) - 1e-9 <= a <= 1 + 1e-9, '%s: recovery to %s outside [%s, 1]', what, a, end)
                if 1 - end > 1e-6:
                    st.setdefault('recover', []).append((a - end) / (1 - end))
            else:
                x = min(max(end + rec, 0), 1)
                sig = (1 - x) / 3
                check(1 - a <= 9 * sig + 1e-9, '%s: start %s more than 9 sigma (%s) below 1', what, a, sig)
                if sig > 1e-6:
                    st.setdefault('halfnorm', []).append((1 - a) / sig)
        prev = (b, r['recovery'])
    # invalid stretches: one constant between the previous end and the next start
    i = 0
    while i < len(rows):
        if rows[i]['valid']:
            i += 1
            continue
        j = i
        while j < len(rows) and not rows[j]['valid']:
            j += 1
        lo = seg[i - 1][1] if i else 1.0
        hi = seg[j][0] if j < len(rows) else 1.0
        for k in range(i, j):
            check(same_float(seg[k][0], seg[i][0]), '%s: different levels in adjacent invalid intervals', what)
            check(min(lo, hi) - 1e-9 <= seg[k][0] <= max(lo, hi) + 1e-9, '%s: level %s of the invalid interval on day %s outside [%s, %s]',
                  what, seg[k][0], rows[k]['a'], lo, hi)
        if abs(hi - lo) > 1e-6:
            st.setdefault('level', []).append((seg[i][0] - lo) / (hi - lo))
        i = j


def run(c, obs):
    from rdtools.soiling import soiling_srr
    i, v, p, pm, insol, pr = data(c)
    kw = kwargs(c)
    try:
        ref = reference(c, v, p)
    except srr.NoValid:
        raise Skip('no valid interval')
    rows = ref['rows']
    call = lambda: with_warnings(lambda: soiling_srr(pm, insol, reps=c['reps'], precipitation_daily=pr, method=c['method'],  # noqa
                                                     confidence_level=c['cl'], exceedance_prob=c['ep'], **kw))
    if c['draws'] is None:
        np.random.seed(c['seed'])
        w = call()
    else:
        with rng.drive(c['draws']):
            w = call()
    sr, ci, info = w.result
    prof = info['stochastic_soiling_profiles']
    check(len(prof) == c['reps'], '%s profiles for %s realizations', len(prof), c['reps'])
    days = i[rows[0]['a']:rows[-1]['b'] + 1]
    wt = insol.reindex(days).fillna(0).to_numpy()
    losses = []
    per = []
    for k, s in enumerate(prof):
        check(ns_of(s.index) == ns_of(days), 'profile %s does not cover exactly the days of the intervals', k)
        st = {}
        chk_profile(s, rows, c['method'], st, 'profile %d' % k)
        per.append(st)
        losses.append(float((s.to_numpy() * wt).sum() / wt.sum()))
    e = [quantile(losses, x / 100) for x in (50, 50 - c['cl'] / 2, 50 + c['cl'] / 2, 100 - c['ep'])]
    check(same_float(sr, e[0], 1e-9), 'soiling ratio %s, median of the profiles %s', sr, e[0])
    check(len(ci) == 2 and same_float(ci[0], e[1], 1e-9) and same_float(ci[1], e[2], 1e-9), 'confidence interval %s, percentiles of the profiles %s', ci, e[1:3])
    check(same_float(info['exceedance_level'], e[3], 1e-9), 'exceedance level %s expected %s', info['exceedance_level'], e[3])
    check(ci[0] <= sr + 1e-12 and sr <= ci[1] + 1e-12 and ci[1] <= 1 + 1e-9, 'interval %s around %s not ordered or above 1', ci, sr)
    nd = sum(r['length'] + 1 for r in rows)
    nv = sum(r['length'] + 1 for r in rows if r['valid'])
    if abs(nv / nd - 0.8) > 1e-9:
        check(w.any(UserWarning, '20% or more') == (c['method'] != 'perfect_clean' and nv / nd < 0.8), 'warning about invalid data (valid %s of %s)', nv, nd)
    if c['draws'] is None and c['reps'] >= 100:
        stats(per, c['reps'])
    obs.model()
    obs.outcome = [c['method'], len(rows), nv, round(sr, 6)]


def stats(per, reps):
    """shape of the sampled distributions, seven standard errors"""
    keys = {k for st in per for k in st}
    for k in keys:
        n = {len(st.get(k, [])) for st in per}
        cols = [[st[k][j] for st in per if len(st.get(k, [])) > j] for j in range(max(n))]
        mean, sd, m2 = (math.sqrt(2 / math.pi), math.sqrt(1 - 2 / math.pi), 1.0) if k == 'halfnorm' else (0.5, math.sqrt(1 / 12), 1 / 3)
        sd2 = math.sqrt(2) if k == 'halfnorm' else math.sqrt(1 / 5 - 1 / 9)
        for x in cols:
            if len(x) < 100:
                continue
            t = 7 / math.sqrt(len(x))
            check(abs(np.mean(x) - mean) < sd * t, 'sampled %s: mean %s expected %s', k, np.mean(x), mean)
            check(abs(np.mean(np.square(x)) - m2) < sd2 * t * (1.5 if k == 'halfnorm' else 1), 'sampled %s: mean square %s expected %s', k, np.mean(np.square(x)), m2)
            lo, hi = (0.3, 1.5) if k == 'halfnorm' else (0.25, 0.75)
            check(min(x) < lo and max(x) > hi, 'sampled %s: all %s draws between %s and %s', k, len(x), min(x), max(x))
        full = [x for x in cols if len(x) == reps]
        for x, y in itertools.combinations(full[:4], 2):
            if np.std(x) > 0 and np.std(y) > 0:
                check(abs(np.corrcoef(x, y)[0, 1]) < 7 / math.sqrt(reps), 'sampled %s of two intervals are not independent', k)


def opts(ch, c, q):
    c['cl'] = ch.choose('cl', [68.2, 95, 0, 100])
    c['ep'] = ch.choose('ep', [95.0, 50, 0.0, 100.0])
    c['insol'] = ch.choose('insol', ['same', 'nan', 'shorter', 'longer'])
    c['tz'] = ch.choose('tz', [None, 'America/Denver'])
    c['t0'] = ch.choose('t0', ['2021-02-15', '2021-10-10'])
    c['kw'] = {'min_interval_length': ch.choose('mil', [5, 7]), 'trim': ch.choose('trim', [False, True]), 'recenter': ch.choose('recenter', [True, False]),
               'max_relative_slope_error': ch.choose('mrse', [500.0, 40.0])}
    return c


def gen_draws(tier):
    """all sequences of extreme draws (low end / high end / middle) up to the given length"""
    q = tier == 'quick'

    def body(ch):
        c = dict(ch.free('data', DATA))
        c['method'] = ch.free('method', METHODS)
        alpha = [1e-6, 1 - 1e-6] if q else [1e-6, 0.5, 1 - 1e-6]
        c['draws'] = [ch.free('u%d' % k, alpha) for k in range(5 if q else 6)]
        c['reps'] = 2
        c['seed'] = 0
        return opts(ch, c, q)
    return body


def gen_seed(tier):
    q = tier == 'quick'

    def body(ch):
        c = dict(ch.free('data', DATA))
        c['method'] = ch.free('method', METHODS)
        c['draws'] = None
        c['seed'] = ch.choose('seed', [0, 1])
        c['reps'] = ch.choose('reps', [4, 1, 2, 9])
        return opts(ch, c, q)
    return body


def gen_stat(tier):
    q = tier == 'quick'

    def body(ch):
        c = dict(ch.free('data', DATA))
        c['method'] = ch.free('method', METHODS)
        c['draws'], c['seed'], c['reps'] = None, ch.free('seed', [11] if q else [11, 12, 13, 14]), 160
        c['cl'], c['ep'], c['insol'], c['kw'] = 68.2, 95.0, 'same', {'min_interval_length': 5, 'trim': ch.choose('trim', [False, True]),
                                                                    'max_relative_slope_error': ch.choose('mrse', [500.0, 40.0])}
        return c
    return body


def gen_many(tier):
    """up to thirty intervals, invalid ones at chosen places, so that group numbers reach beyond eight and sixteen"""
    q = tier == 'quick'

    def body(ch):
        c = dict(MANY)
        a = ch.free('inv1', [0, 1, 2, 5] if q else list(range(0, 12)))
        b = ch.free('inv2', [8, 9, 10, 12, 16, 17, 20] if q else list(range(12, 29)))
        l = ch.free('len', [[1, 2], [2, 1], [1, 1], [3, 1]] if not q else [[1, 2], [2, 1]])
        bad = list(range(a, a + l[0])) + list(range(b, b + l[1]))
        # an invalid interval has a large negative step in its middle
        c['rates'] = [-0.006 + 0.0002 * (k % 7) for k in range(30)]
        c['cleans'] = [[12 * k, 1.0] for k in range(1, 30)]
        c['steps'] = [12 * k + 6 for k in bad]
        c['method'] = ch.free('method', METHODS[:2])
        c['draws'] = ch.free('draws', [None, [1e-6, 1 - 1e-6, 0.5], [0.9, 0.1]])
        c['seed'], c['reps'], c['cl'], c['ep'], c['insol'], c['kw'] = 3, 3, 68.2, 95.0, 'same', {'min_interval_length': 5, 'max_negative_step': 0.05, 'clean_threshold': 0.03}
        return c
    return body


def gen_bad(tier):
    def body(ch):
        return {'data': ch.free('data', DATA[:2]), 'm': ch.free('m', ['perfect', '', 'half_norm', None, 'ok'])}
    return body


def run_bad(c, obs):
    from rdtools.soiling import soiling_srr
    d = dict(c['data'], insol='same', kw={'min_interval_length': 5})
    i, v, p, pm, insol, pr = data(d)
    call = lambda: soiling_srr(pm, insol, reps=2, method='random_clean' if c['m'] == 'ok' else c['m'], **kwargs(d))  # noqa
    if c['m'] == 'ok':
        call()
    else:
        expect_raises(ValueError, call, 'unknown method %r' % c['m'])
    obs.model()


def families(tier):
    q = tier == 'quick'
    return [{'name': 'draws', 'gen': gen_draws(tier), 'run': run, 'bound': 0 if q else 1},
            {'name': 'seeds', 'gen': gen_seed(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'distribution', 'gen': gen_stat(tier), 'run': run, 'bound': 1 if q else 2},
            {'name': 'many', 'gen': gen_many(tier), 'run': run, 'bound': 0},
            {'name': 'rejected', 'gen': gen_bad(tier), 'run': run_bad, 'bound': 0}]
