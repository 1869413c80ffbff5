"""Plain reference of the stochastic rate-and-recovery interval analysis, and the synthetic daily data."""
import math

import numpy as np
import pandas as pd
from scipy.stats.mstats import theilslopes

from mc.lib import *  # noqa


class Tie(Exception):
    pass


class NoValid(Exception):
    pass


def near(a, b, eps=1e-10):
    return abs(a - b) < eps


def intervals(pm, precip, day_scale=13, clean_threshold='infer', recenter=True, clean_criterion='shift', precip_threshold=0.01,
              outlier_factor=1.5, trim=False, max_relative_slope_error=500.0, max_negative_step=0.05, min_interval_length=7):
    """pm: list of daily values (NaN = missing).  Returns dict with the first/last day, factor and the interval rows."""
    n0 = len(pm)
    valid = [not math.isnan(v) for v in pm]
    first, last = valid.index(True), n0 - 1 - valid[::-1].index(True)
    pm, valid = pm[first:last + 1], valid[first:last + 1]
    pr = (precip[first:last + 1] if precip is not None else [0.0] * len(pm))
    n = len(pm)
    fac = median([v for v in pm[:365] if v == v]) if recenter else 1.0
    x = [v / fac if v == v else NaN for v in pm]
    # over-long gaps: the last valid day before and the first valid day after start a run of their own
    event = [False] * n
    i = 0
    while i < n:
        if not valid[i]:
            j = i
            while not valid[j]:
                j += 1
            if j - i > day_scale:
                event[i - 1] = event[j] = True
            i = j
        i += 1
    # forward fill (limited), centred complete-window rolling median, steps
    f, age = [], 0
    for i in range(n):
        if valid[i]:
            f.append(x[i])
            age = 0
        else:
            age += 1
            f.append(f[-1] if age <= day_scale else NaN)
    ahead = (day_scale - 1) // 2
    behind = day_scale - 1 - ahead
    med = []
    for i in range(n):
        a, b = i - behind, i + ahead
        w = f[a:b + 1] if a >= 0 and b < n else [NaN]
        med.append(NaN if any(v != v for v in w) else median(w))
    delta = [NaN] + [med[i] - med[i - 1] for i in range(1, n)]
    thr = clean_threshold
    if clean_threshold == 'infer':
        ab = [abs(d) for d in delta if d == d]
        q3, q1 = quantile(ab, .75), quantile(ab, .25)
        thr = q3 + outlier_factor * (q3 - q1)
    if clean_criterion != 'precip':
        for d in delta:
            if d == d and near(d, thr):
                raise Tie
    shift = [d == d and d > thr for d in delta]
    rain = [p == p and p > precip_threshold for p in pr]
    if clean_criterion == 'shift':
        ev = shift
    elif clean_criterion == 'precip':
        ev = rain
    elif clean_criterion == 'precip_or_shift':
        ev = [a or b for a, b in zip(shift, rain)]
    else:
        ev = [a and any(rain[max(i - 1, 0):i + 2]) for i, a in enumerate(shift)]
    ev = [a or b for a, b in zip(ev, event)]
    starts = [0] + [i for i in range(1, n) if ev[i]]
    runs = [(a, b - 1) for a, b in zip(starts, starts[1:] + [n])]
    if trim:
        runs = runs[1:-1]
    rows = []
    for a, b in runs:
        pts = [i for i in range(a, b + 1) if valid[i] and x[i] > 0]
        use = pts or list(range(a, b + 1))
        neg = min(0.0 if delta[i] != delta[i] else delta[i] for i in use)
        xs = [x[i] if valid[i] else 0.0 for i in use]
        m = sum(xs) / len(xs)
        row = dict(a=first + a, b=first + b, length=b - a, slope=0.0, low=0.0, high=0.0, start_loss=m, end_loss=m, valid=False)
        if len(use) > min_interval_length and pts:
            s, c, lo, hi = theilslopes(np.array([x[i] for i in pts]), np.array(pts))
            row.update(slope=float(s), low=float(lo), high=min(0.0, float(hi)), valid=True,
                       start_loss=float(c + s * a), end_loss=float(c + s * b))
        if row['valid']:
            lim = max_relative_slope_error / 100.0
            e = abs(row['high'] - row['low']) / abs(row['slope']) if row['slope'] else (math.inf if row['high'] != row['low'] else NaN)
            if (abs(row['slope']) < 1e-15 and row['slope'] != 0) or near(e, lim, 1e-9) or near(neg, -max_negative_step):
                raise Tie
            # signed as documented: a slope interval entirely above zero gives a negative width only when the slope is positive
            e = (row['high'] - row['low']) / abs(row['slope']) if row['slope'] else e
            if row['slope'] > 0 or e >= lim or neg <= -max_negative_step:
                row.update(slope=0.0, low=0.0, high=0.0, valid=False)
        rows.append(row)
    if not any(r['valid'] for r in rows):
        raise NoValid
    v = [r for r in rows if r['valid']]
    for r in rows:
        r['recovery'] = NaN
    for r, nx in zip(v, v[1:]):
        r['recovery'] = min(max(min(max(nx['start_loss'], 0), 1) - r['end_loss'], 0), 1)
    return dict(first=first, last=last, factor=fac, rows=rows)


# --------------------------------------------------------------------------- synthetic data
_N = [((i * 7919 + 13) % 101 - 50) / 50.0 for i in range(1200)]      # fixed "noise" in [-1, 1]


def synth(c):
    """c: n, cleans [(day, level)], rate, noise, nans [(a, len)], drop, spike, up  ->  list of values, precipitation list"""
    n = c['n']
    v, lvl, since = [], 1.0, 0
    ev = dict((d, l) for d, l in c['cleans'])
    rates = c['rates']
    k = 0
    for i in range(n):
        if i in ev:
            lvl, since, k = ev[i], 0, k + 1
        if i in c.get('steps', ()):
            lvl -= 0.12
        v.append(c.get('scale', 1.0) * (lvl + since * rates[k % len(rates)] + c['noise'] * _N[i]))
        since += 1
    if c.get('drop') is not None:
        for i in range(c['drop'], n):
            v[i] -= 0.12 * c.get('scale', 1.0)
    if c.get('spike') is not None:
        v[c['spike']] *= 1.5
    if c.get('zero') is not None:
        v[c['zero']] = 0.0
    for a, l in c['nans']:
        for i in range(max(a, 0), min(a + l, n)):
            v[i] = NaN
    return v


def frame(c):
    i = pd.date_range(c.get('t0', '2020-01-05'), periods=c['n'], freq='D', tz=c.get('tz'))
    if c.get('freq') is False:
        i.freq = None
    v = synth(c)
    ins = [3.0 + 2.0 * math.sin(k / 9.0) + (k % 3) for k in range(c['n'])]
    p = None
    if c.get('rain') is not None:
        p = [0.0] * c['n']
        for d, a in c['rain']:
            if 0 <= d < c['n']:
                p[d] = a
    return i, v, ins, p


def base_case(ch, q):
    c = {'n': 64, 'rates': [-0.004, -0.006], 'noise': 0.002, 'nans': [], 'day_scale': ch.choose('day_scale', [5, 3, 4, 7, 13])}
    d = c['day_scale']
    c['cleans'] = ch.choose('cleans', [[[20, 1.0], [41, 1.0]], [[30, 1.0]], [], [[10, 1.0], [20, 1.0], [32, 1.0], [45, 1.0]], [[20, 0.97], [41, 1.01]],
                                       [[20, 1.0], [22, 1.06], [41, 1.0]], [[1, 1.1], [62, 1.1]], [[8, 1.0], [16, 1.0], [24, 1.0], [33, 1.0], [41, 1.0], [50, 1.0]]])
    c['rates'] = ch.choose('rates', [[-0.004, -0.006], [-0.004, 0.003], [-0.004, 0.0], [0.002, -0.005], [-0.02, -0.0005], [-0.0001, -0.006]])
    c['noise'] = ch.choose('noise', [0.002, 0.0, 0.01, 0.03])
    g = ch.choose('gap', [None, d - 1, d, d + 1, 2 * d, 1, 9])
    if g is not None:
        c['nans'].append([ch.choose('gapat', [25, 19, 20, 21, 41 - g, 41, 5, 1, 60, 0]), g])
    c['drop'] = ch.choose('drop', [None, 30, 21, 52])
    c['spike'] = ch.choose('spike', [None, 28])
    c['zero'] = ch.choose('zero', [None, 28, 22])
    return c


SRR_KW = dict(day_scale=13, clean_threshold='infer', recenter=True, clean_criterion='shift', precip_threshold=0.01, outlier_factor=1.5,
              trim=False, max_relative_slope_error=500.0, max_negative_step=0.05, min_interval_length=7)


def kw_case(ch):
    k = {}
    k['clean_threshold'] = ch.choose('thr', ['infer', 0.0, 0.02, 0.04, 10.0])
    k['recenter'] = ch.choose('recenter', [True, False])
    k['clean_criterion'] = ch.choose('crit', ['shift', 'precip', 'precip_or_shift', 'precip_and_shift'])
    k['precip_threshold'] = ch.choose('pthr', [0.01, 0.5, 1.0])
    k['outlier_factor'] = ch.choose('of', [1.5, 0.0, 4.0])
    k['trim'] = ch.choose('trim', [False, True])
    k['max_relative_slope_error'] = ch.choose('mrse', [500.0, 50.0, 5.0, 2000.0])
    k['max_negative_step'] = ch.choose('mns', [0.05, 0.01, 0.5])
    k['min_interval_length'] = ch.choose('mil', [7, 2, 12, 20, 21])
    return k
