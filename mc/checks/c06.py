"""C06 year-on-year pairing, slopes, recentering, usage counts."""
import numpy as np
import pandas as pd

from mc import models
from mc.lib import *  # noqa

ASSUMPTIONS = ['unique timestamps; positive first-year median', 'step used for the two-year rule: inferred frequency, else median step']


def cheap_choice(a, size=None, replace=True, p=None):
    """stand-in for the random source in the simple bootstrap: a legal draw (element 0 everywhere)"""
    a = np.asarray(a)
    if isinstance(size, tuple) and len(size) == 2 and size[1] > 20:
        return np.broadcast_to(a[0], size)
    return _orig(a, size, replace, p)


_orig = np.random.choice


def call(s, **kw):
    """runs the real function with cheap legal random draws (if it uses numpy's global choice)"""
    from rdtools import degradation_year_on_year
    np.random.choice = cheap_choice
    try:
        return degradation_year_on_year(s, **kw)
    finally:
        np.random.choice = _orig


def compare(s, recenter, what, obs):
    srt = s.sort_index()
    idx = srt.index
    vals = [float(x) for x in srt.to_numpy()]
    if not models.two_years(idx):
        expect_raises(ValueError, lambda: call(s, recenter=recenter), what + ': less than two years')
        obs.model()
        return 'short'
    ref = models.yoy(list(idx), vals, recenter)
    if isnan(ref['renorm']) or ref['renorm'] == 0:
        raise Skip('no first-year level')
    if not ref['slopes']:
        expect_raises(ValueError, lambda: call(s, recenter=recenter), what + ': no pairs')
        expect_raises(ValueError, lambda: call(s, recenter=recenter, uncertainty_method=None), what + ': no pairs')
        obs.model()
        return 'nopairs'
    rd, ci, info = call(s, recenter=recenter)
    y = info['YoY_values']
    exp_t = [idx[i].value for i in sorted(ref['slopes'])]
    expect_series(y, exp_t, [ref['slopes'][i] for i in sorted(ref['slopes'])], what + ' slopes', rtol=1e-8, atol=1e-9)
    check(same_float(rd, ref['rate'], 1e-8, 1e-9), '%s: rate %s expected %s', what, rd, ref['rate'])
    check(same_float(info['renormalizing_factor'], ref['renorm']), '%s: renormalizing factor %s expected %s', what,
          info['renormalizing_factor'], ref['renorm'])
    u = info['usage_of_points']
    expect_series(u, [x.value for x in idx], ref['usage'], what + ' usage_of_points')
    r2 = call(s, recenter=recenter, uncertainty_method=None)
    check(same_float(r2, ref['rate'], 1e-8, 1e-9), '%s: rate without uncertainty %s expected %s', what, r2, ref['rate'])
    if recenter:
        r3 = call(s * 8.0, recenter=True, uncertainty_method='none')
        check(same_float(r3, ref['rate'], 1e-7, 1e-8), '%s: rate depends on units: %s vs %s', what, r3, ref['rate'])
    obs.model(3)
    return [round(float(x), 6) for x in y]


def gen(tier):
    m = 4

    def body(ch):
        return {'anchor': ch.free('anchor', ['2019-02-26', '2020-02-26', '2018-03-08']),
                'gap': ch.free('gap', [1, 3]),
                'years': [''.join(ch.choose('s%d_%d' % (y, i), 'VNMTL') for i in range(m)) for y in range(3)],
                'recenter': ch.choose('recenter', [True, False]),
                'shuffle': ch.choose('shuffle', [False, 'rev', 'mix']),
                'tz': ch.choose('tz', [None, 'US/Eastern', 'Australia/Sydney']),
                'gap2': ch.choose('gap2', [None, 8, 9, 7, 5]),
                'unit': ch.choose('unit', ['ns', 's']),
                'name': ch.choose('name', ['x', None, 'dt']),
                'noise': ch.choose('noise', [0, 1, 2]),
                'tail': ch.choose('tail', [True, False])}
    return body


NOISE = [[0, 3, -2, 1, 4, -1, 2, -3, 5, -4, 1, 0, 2], [0] * 13, [0, 0, 0, 40, 0, 0, -30, 0, 0, 0, 25, 0, 0]]


def run(case, obs):
    c = case
    gap = c['gap2'] or c['gap']
    t, v = [], []
    a = pd.Timestamp(c['anchor'])
    k = 0
    for y in range(3):
        base = a + pd.DateOffset(years=y)
        for i in range(4):
            st = c['years'][y][i]
            k += 1
            if st == 'M':
                continue
            d = base + pd.Timedelta(days=gap * i)
            if st == 'T':
                d += pd.Timedelta(hours=9)
            x = 0.9 - 0.01 * y + NOISE[c['noise']][k] / 256
            t.append(d)
            v.append(NaN if st == 'N' else 0.0 if st == 'L' else x)
    if c['tail']:
        t.append(a + pd.DateOffset(years=3) - pd.Timedelta(days=2))
        v.append(0.8)
    if len(set(t)) != len(t) or len(t) < 4:
        raise Skip('duplicate times')
    idx = pd.DatetimeIndex(t)
    if c['tz']:
        idx = idx.tz_localize(c['tz'])
    if c['unit'] != 'ns':
        idx = idx.as_unit(c['unit'])
    s = pd.Series(v, index=idx, name=c['name'])
    if c['name'] == 'dt':
        s.index.name = 'time'
    if c['shuffle'] == 'rev':
        s = s.iloc[::-1]
    elif c['shuffle'] == 'mix':
        s = pd.concat([s.iloc[1::2], s.iloc[::2]])
    obs.outcome = compare(s, c['recenter'], 'clusters', obs)


def gen_reg(tier):
    def body(ch):
        return {'freq': ch.free('freq', ['D', 'W', '7D', 'MS', 'ME', '2D', 'SMS', '14D']),
                'start': ch.free('start', ['2019-01-01', '2020-02-29', '2019-03-01', '2018-12-31', '2020-01-15', '2015-06-30']),
                'len': ch.free('len', ['2y-2', '2y-1', '2y', '2y+1', '2y+2', '3y', '2y-3']),
                'nan': ch.choose('nan', [None, 0, 5, 'every3', 'firstyear', 'block']),
                'drop': ch.choose('drop', [None, 3, 'some']),
                'recenter': ch.choose('recenter', [True, False]),
                'tz': ch.choose('tz', [None, 'US/Eastern']),
                'hour': ch.choose('hour', [0, 12])}
    return body


def run_reg(case, obs):
    c = case
    start = pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour'])
    full = pd.date_range(start, periods=1 + {'D': 1300, 'W': 200, '7D': 200, 'MS': 50, 'ME': 50, '2D': 700, 'SMS': 100, '14D': 120}[c['freq']],
                         freq=c['freq'])
    two = full[0] + pd.DateOffset(years=3 if c['len'] == '3y' else 2)
    n = int((full < two).sum())
    n += {'2y-2': -2, '2y-1': -1, '2y': 0, '2y+1': 1, '2y+2': 2, '3y': 0, '2y-3': -3}[c['len']]
    idx = full[:n]
    if c['tz']:
        idx = idx.tz_localize(c['tz'], ambiguous=True, nonexistent='shift_forward')
    v = np.array([0.95 - 0.02 * i / len(full) + ((i * 37) % 11) / 200 for i in range(n)])
    if c['nan'] == 'every3':
        v[::3] = np.nan
    elif c['nan'] == 'firstyear':
        v[: n // 2 - 2] = np.nan
    elif c['nan'] == 'block':
        v[n // 2: n // 2 + 3] = np.nan
    elif c['nan'] is not None:
        v[c['nan']] = np.nan
    s = pd.Series(v, index=idx)
    if c['drop'] == 3:
        s = s.drop(idx[3])
    elif c['drop'] == 'some':
        s = s.drop([idx[k] for k in range(2, n - 1, 5)])
    obs.outcome = compare(s, c['recenter'], 'regular', obs)


def families(tier):
    q = tier == 'quick'
    return [{'name': 'clusters', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'regular', 'gen': gen_reg(tier), 'run': run_reg, 'bound': 1 if q else 2}]
