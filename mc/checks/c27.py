"""C27 robust statistics vs. reference on every multiset-with-order over a small alphabet."""
import itertools
import math

import pandas as pd

from mc import models
from mc.lib import *  # noqa

ASSUMPTIONS = ['values >= 0 (documented domain), one infinite-free alphabet with values around the 1/1000 threshold']
ALPHA = [1000.0, None, 0.0, 1.0, 0.9, 500.0, 3000.0]
QS = [0.99, 0.5, 1.0, 0.075]


def gen(tier):
    n = 5 if tier == 'quick' else 6

    def body(ch):
        k = ch.free('n', [n, 1, 2, 3, 4])
        return {'v': [ch.choose('v%d' % i, ALPHA) for i in range(k)],
                'fn': ch.free('fn', ['quantile', 'median', 'mean'])}
    return body


def run(case, obs):
    from rdtools import robust_quantile, robust_median, robust_mean
    v = [num(x) for x in case['v']]
    s = pd.Series(v, dtype=float)
    fn = {'quantile': robust_quantile, 'median': robust_median, 'mean': robust_mean}[case['fn']]
    ref = {'quantile': models.robust_quantile, 'median': models.robust_median, 'mean': models.robust_mean}[case['fn']]
    res = []
    for q in QS:
        g = fn(s, q)
        e = ref(v, q)
        check(same_float(g, e), '%s(%s, %s) = %s, expected %s', case['fn'], v, q, g, e)
        z = fn(s.fillna(0.0), q)
        check(same_float(g, z), '%s differs between NaN and zero: %s vs %s', case['fn'], g, z)
        r = fn(s.iloc[::-1], q)
        check(same_float(g, r), 'depends on order')
        m = fn(s * 4.0, q)
        check(same_float(4 * float(g), m), 'does not scale')
        res.append(None if isnan(float(g)) else round(float(g), 9))
    if case['fn'] != 'quantile':
        check(same_float(fn(s), fn(s, 0.99)) and same_float(fn(s), ref(v)), 'default q is not 0.99')
    if not any(isnan(x) for x in v) and all(float(x).is_integer() for x in v):
        i = s.astype(int)
        check(same_float(fn(i, 0.5), fn(s, 0.5)), 'integer dtype changes the result')
    d = pd.Series(v, index=pd.date_range('2020', periods=len(v), freq='D', tz='US/Eastern'))
    check(same_float(fn(d, 0.5), fn(s, 0.5)), 'index changes the result')
    obs.model(len(QS))
    obs.outcome = res


def gen_long(tier):
    def body(ch):
        return {'day': ch.free('day', ['sine', 'flat', 'ramp', 'clip']), 'night': ch.free('night', ['nan', 'zero', 'tiny', 'drop', 'mixed']),
                'scale': ch.free('scale', [1.0, 1e-3, 5e5]), 'q': ch.free('q', [0.5, 0.9, 0.98, 0.99, 0.3]),
                'nanday': ch.free('nanday', [0, 5])}
    return body


def run_long(case, obs):
    from rdtools import robust_quantile, robust_median, robust_mean
    n = 48
    v = []
    for i in range(n):
        h = i % 24
        if 6 <= h <= 18:
            x = {'sine': math.sin((h - 5) / 14 * math.pi), 'flat': 0.7, 'ramp': (h - 5) / 13, 'clip': min(0.8, math.sin((h - 5) / 14 * math.pi))}[case['day']]
            x *= case['scale']
            if case['nanday'] and i % case['nanday'] == 0:
                x = NaN
        else:
            x = {'nan': NaN, 'zero': 0.0, 'tiny': 1e-9 * case['scale'], 'drop': None, 'mixed': NaN if i % 2 else 0.0}[case['night']]
            if x is None:
                continue
        v.append(x)
    s = pd.Series(v)
    q = case['q']
    for fn, ref in ((robust_quantile, models.robust_quantile), (robust_median, models.robust_median), (robust_mean, models.robust_mean)):
        check(same_float(fn(s, q), ref(v, q)), '%s: %s expected %s', fn.__name__, fn(s, q), ref(v, q))
        if case['night'] in ('nan', 'zero', 'tiny', 'mixed'):
            z = pd.Series([0.0 if isnan(x) else x for x in v])
            check(same_float(fn(s, q), fn(z, q)), 'NaN/zero')
    obs.model(3)
    obs.outcome = [round(float(models.robust_mean(v, q)), 9)]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'small', 'gen': gen(tier), 'run': run, 'bound': 3 if q else 5},
            {'name': 'days', 'gen': gen_long(tier), 'run': run_long, 'bound': 0}]
