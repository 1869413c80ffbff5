"""C05 aggregation_insol == per-bin weighted mean."""
import math
from fractions import Fraction

import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = ['rows of energy and insolation share one unique index (or are matched by label)',
               'a NaN energy contributes nothing to the numerator while its insolation stays in the denominator '
               '(sum over the bin of insolation x energy divided by sum of insolation, NaN skipped in each sum)']
ENERGY = [0.9, 1.1, 0.4, 1.3, 0.7, 1.0, 0.95, 0.6, 1.2, 0.85]
INSOL = [100.0, 250.0, 30.0, 400.0, 75.0, 310.0, 20.0, 150.0, 90.0, 60.0]
TZ = [None, 'UTC', 'US/Eastern', 'Australia/Sydney', 'Asia/Kolkata']


def bin_of(t_ns, first_ns, freq, tz):
    """label (ns, instant) of the bin holding t; bins anchored at local midnight of the first day"""
    def naive(x):
        s = pd.Timestamp(x)
        return s if tz is None else s.tz_localize('UTC').tz_convert(tz).tz_localize(None)

    def inst(x):
        return x.value if tz is None else x.tz_localize(tz, ambiguous=True, nonexistent='shift_forward').tz_convert('UTC').tz_localize(None).value
    mid = naive(first_ns).normalize()
    if freq in ('D', '2D', '7D'):
        step = {'D': 1, '2D': 2, '7D': 7}[freq] * DAY
        k = (naive(t_ns).value - mid.value) // step
        return inst(pd.Timestamp(mid.value + k * step))
    if freq in ('1h', '5h', '30min', '8h'):
        step = {'1h': 60, '5h': 300, '30min': 30, '8h': 480}[freq] * MIN
        o = inst(mid)
        k = (t_ns - o) // step
        return o + k * step
    if freq == 'MS':
        return inst(naive(t_ns).normalize().replace(day=1))
    if freq == 'W':
        d = naive(t_ns).normalize()
        return inst(d + pd.Timedelta(days=6 - d.dayofweek))
    raise AssertionError


def gen(tier):
    n = 7

    def body(ch):
        st = ''.join(ch.choose('s%d' % i, 'VEIZMB0GH') for i in range(n))
        return {'slots': st, 'freq': ch.free('freq', ['D', '1h', '5h', '2D', 'W', 'MS', '7D', '8h']),
                'step_h': ch.free('step', [4, 11, 30]),
                'start': ch.choose('start', ['2020-01-30 00:00', '2020-03-07 21:30', '2020-10-31 17:10', '2020-02-28 23:00', '2020-04-04 05:00']),
                'tz': ch.choose('tz', TZ), 'order': ch.choose('order', ['asc', 'desc', 'mix']),
                'scale': ch.choose('scale', [1.0, 1e-3, 7e4]), 'escale': ch.choose('escale', [1.0, 3.0]),
                'default': ch.choose('default', [False, True]), 'offset': ch.choose('offset', [False, True]),
                'unit': ch.choose('unit', ['ns', 'us'])}
    return body


def run(case, obs):
    from rdtools import aggregation_insol
    c = case
    t0 = ts(c['start'])
    rows = []
    slots = c['slots']
    if 'long' in c:                     # the pattern recurs, with V in between
        slots = [slots[(i // c['every']) % len(slots)] if i % c['every'] == 0 else 'V' for i in range(c['long'])]
    for i, s in enumerate(slots):
        if s == 'M':
            continue
        e, w = ENERGY[i % 10] * c['escale'], INSOL[i % 10] * c['scale'] * (1 + i // 10 % 7)
        if s in 'EB':
            e = NaN
        if s in 'IB':
            w = NaN
        if s == 'Z':
            w = 0.0
        if s == '0':
            e = 0.0
        if s == 'G':
            w = -0.37 * w           # sensor offset at night
        if s == 'H':
            e = -0.3 * e
        rows.append((t0 + int(i * c['step_h'] * HOUR), e, w))
    if not rows:
        raise Skip()
    if c['order'] == 'desc':
        rows = rows[::-1]
    elif c['order'] == 'mix':
        rows = rows[1::2] + rows[::2]
    if c['unit'] != 'ns' and c['freq'] not in ('D', '1h', '5h', '2D', '7D', '8h', 'W', 'MS'):
        raise Skip()
    idx = mk_index([r[0] for r in rows], c['tz'], c['unit'])
    E = pd.Series([r[1] for r in rows], index=idx)
    W = pd.Series([r[2] for r in rows], index=idx)
    f = c['freq']
    if c['default']:
        if f != 'D':
            raise Skip()
        got = aggregation_insol(E, W)
    else:
        got = aggregation_insol(E, W, pd.tseries.frequencies.to_offset(f) if c['offset'] else f)
    first = min(r[0] for r in rows)
    acc = {}
    count = {}
    for t, e, w in rows:
        b = bin_of(t, first, f, c['tz'])
        if not isnan(w):
            count[b] = count.get(b, 0) + 1
        a = acc.setdefault(b, [0.0, 0.0, []])
        if not isnan(e) and not isnan(w):
            a[0] += e * w
            a[2].append(e)
        if not isnan(w):
            a[1] += w
    labels = ns_of(got.index)
    check(len(set(labels)) == len(labels) and labels == sorted(labels), 'labels not increasing: %s', list(got.index))
    miss = set(acc) - set(labels)
    check(not miss, 'bins %s missing from the result %s', [str(pd.Timestamp(m)) for m in miss], list(map(str, got.index)))
    for L, v in zip(labels, got.to_numpy(dtype=float)):
        if L in acc:
            nume, den, es = acc[L]
            exp = nume / den if den != 0 else NaN
            if den != 0 and all(w >= 0 for _, _, w in rows if not isnan(w)) and len(es) == count.get(L, 0):
                check(min(es) - 1e-9 <= v <= max(es) + 1e-9, 'aggregate %s outside [%s, %s]', v, min(es), max(es))
        else:
            exp = NaN
        check(same_float(v, exp), 'bin %s: got %s expected %s', pd.Timestamp(L), v, exp)
    obs.model()
    obs.outcome = [None if isnan(float(v)) else round(float(v), 9) for v in got][:20]


def gen_long(tier):
    def body(ch):
        return {'slots': ''.join(ch.choose('s%d' % i, 'VEIZMB0GH') for i in range(3)),
                'long': ch.free('n', [40, 150, 500]), 'every': ch.free('every', [1, 13]),
                'freq': ch.free('freq', ['D', '1h', '5h', 'W', 'MS']), 'step_h': ch.free('step', [0.25, 1, 7]),
                'start': ch.choose('start', ['2020-02-20 00:00', '2020-10-25 17:10']), 'tz': ch.choose('tz', [None, 'US/Eastern', 'Australia/Sydney']),
                'order': 'asc', 'scale': 1.0, 'escale': 1.0, 'default': False, 'offset': False, 'unit': 'ns'}
    return body


def families(tier):
    q = tier == 'quick'
    return [{'name': 'bins', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'long', 'gen': gen_long(tier), 'run': run, 'bound': 1 if q else 2}]
