"""C02 interpolate: bracketing linear interpolation, gap rule, time zones, frames, warnings."""
import pandas as pd

from mc import models
from mc.lib import *  # noqa

ASSUMPTIONS = ['input index sorted and unique; target unique', 'values from a fixed alphabet']
STEP = 10 * MIN
VALS = [[3.0, 7.0, 2.0, 11.0, 5.0, 0.0, 13.0, 1.0, 6.0], [0.0, 0.0, -4.0, -1.0, 1e6, 2.0, 2.0, 9.0, 1e-3]]
TZP = [(None, None), ('UTC', 'UTC'), ('US/Eastern', 'UTC'), ('UTC', 'Asia/Kolkata'), ('US/Eastern', 'Australia/Sydney'),
       ('US/Eastern', 'US/Eastern')]
START = {'plain': '2020-01-01 00:00', 'spring': '2020-03-08 06:30', 'fall': '2020-11-01 05:30', 'sec': '2021-02-28 23:47:13'}

# targets in minutes relative to slot 0 (data span 0..60)
TARGETS = {
    'dense': list(range(-15, 86, 5)),
    'same': [0, 10, 20, 30, 40, 50, 60],
    'odd': [3, 17, 21, 38, 44, 59],
    'out': [-30, -1, 61, 90],
    'one': [25],
    'rev': [55, 35, 15, 5, -5, 65],
    'far': [-100000, 33, 100000],
}
FREQ = {'10min': 10, '5min': 5, '7min': 7, '15min': 15, '1h': 60, '20min': 20}


def gen(tier, mode):
    n = 7

    def body(ch):
        slots = ''.join(ch.choose('slot%d' % i, 'VNM' if i else 'VN') for i in range(n))
        c = {'slots': slots,
             'max': ch.free('max', [None, 10, 20, 30] if tier == 'quick' else [None, 9, 10, 19, 20, 25, 30, 40]),
             'target': ch.free('target', list(TARGETS) + list(FREQ))}
        if mode == 'var':
            c.update({'tz': ch.choose('tz', TZP), 'start': ch.choose('start', list(START)),
                      'unit': ch.choose('unit', ['ns', 'us', 's']), 'tunit': ch.choose('tunit', ['ns', 's']),
                      'vals': ch.choose('vals', [0, 1]), 'thr': ch.choose('thr', [0.1, 0.0, 0.14, 0.2, 1.0]),
                      'offset': ch.choose('offset', [False, True]),
                      'shift': ch.choose('shift', [None, [2, 4], [5, -7]]),
                      'name': ch.choose('name', [None, 'x', 'data', 'timestamp']),
                      'int': ch.choose('int', [False, True])})
        return c
    return body


DEF = {'tz': (None, None), 'start': 'plain', 'unit': 'ns', 'tunit': 'ns', 'vals': 0, 'thr': 0.1, 'offset': False,
       'shift': None, 'name': None, 'int': False}


def build(c, slots, which=0):
    t0 = ts(START[c['start']])
    t, v = [], []
    for i, s in enumerate(slots):
        if s == 'M':
            continue
        u = t0 + i * STEP
        if c['shift'] and c['shift'][0] == i:
            u += c['shift'][1] * MIN
        t.append(u)
        v.append(NaN if s == 'N' else VALS[(c['vals'] + which) % 2][i])
    return t0, t, v


def target_of(c, t0, t, tz):
    if c['target'] in FREQ:
        f = c['target']
        step = FREQ[f] * MIN
        g = list(range(t[0], t[-1] + 1, step))
        return (pd.tseries.frequencies.to_offset(f) if c['offset'] else f), g
    g = [t0 + m * MIN for m in TARGETS[c['target']]]
    return mk_index(g, tz, c['tunit']), g


def run(case, obs):
    from rdtools import interpolate
    c = dict(DEF, **case)
    t0, t, v = build(c, c['slots'])
    nv = sum(not isnan(x) for x in v)
    if nv < 2 and c['max'] is None:
        raise Skip('default gap limit undefined')
    tz, ttz = c['tz']
    s = pd.Series(v, index=mk_index(t, tz, c['unit']), name=c['name'])
    if c['int']:
        if nv < len(v):
            raise Skip('int with NaN')
        s = s.astype(int)
        v = [float(int(x)) for x in v]
    tgt, g = target_of(c, t0, t, ttz)
    mx = None if c['max'] is None else c['max'] * MIN
    exp, gaps, used = models.interp(t, v, g, mx)
    kw = {} if c['max'] is None else {'max_timedelta': pd.Timedelta(minutes=c['max'])}
    if c['thr'] != 0.1:
        kw['warning_threshold'] = c['thr']
    w = with_warnings(lambda: interpolate(s, tgt, **kw))
    got = w.result
    expect_series(got, g, exp, 'interpolate')
    check(got.name == c['name'], 'name changed to %r', got.name)
    if isinstance(tgt, pd.DatetimeIndex):
        check(str(got.index.tz) == str(tgt.tz), 'result not in the time zone of the target')
    frac = sum(1 for x in gaps if x > used) / nv if nv else 0
    check(w.any(UserWarning) == (frac > c['thr']), 'warning %s although excluded fraction %s vs threshold %s',
          w.any(UserWarning), frac, c['thr'])
    obs.model()
    obs.outcome = [None if isnan(x) else round(x, 6) for x in exp]


def gen_frame(tier):
    def body(ch):
        cols = [''.join(ch.choose('c%d_%d' % (k, i), 'VN') for i in range(6)) for k in range(2 if tier == 'quick' else 3)]
        return {'cols': cols, 'max': ch.free('max', [None, 10, 20]),
                'target': ch.free('target', ['dense', 'same', 'rev', '5min', '15min']),
                'drop': ch.choose('drop', [None, 2, 4]),
                'tz': ch.choose('tz', TZP[:3]), 'names': ch.choose('names', [['a', 'b', 'c'], [0, 1, 2], ['gapsize_ns', 'timestamp', 'data']])}
    return body


def run_frame(case, obs):
    from rdtools import interpolate
    c = dict(DEF, **case)
    keep = [i for i in range(6) if i != c['drop']]
    t0 = ts('2020-01-01')
    t = [t0 + i * STEP for i in keep]
    idx = mk_index(t, c['tz'][0])
    cols = {}
    vals = {}
    for k, pat in enumerate(c['cols']):
        v = [NaN if pat[i] == 'N' else VALS[k % 2][i] + k for i in keep]
        if sum(not isnan(x) for x in v) < 2:
            raise Skip('too few')
        cols[c['names'][k]] = pd.Series(v, index=idx)
        vals[c['names'][k]] = v
    df = pd.DataFrame(cols)
    tgt, g = target_of(c, t0, t, c['tz'][1])
    kw = {} if c['max'] is None else {'max_timedelta': pd.Timedelta(minutes=c['max'])}
    got = interpolate(df, tgt, **kw)
    check(isinstance(got, pd.DataFrame), 'frame in, %s out', type(got))
    check(list(got.columns) == list(df.columns), 'columns changed: %s', list(got.columns))
    res = []
    for k in df.columns:
        exp, _, _ = models.interp(t, vals[k], g, None if c['max'] is None else c['max'] * MIN)
        expect_series(got[k], g, exp, 'column %r' % k)
        res.append([None if isnan(x) else round(x, 6) for x in exp])
    obs.model()
    obs.outcome = res


def gen_err(tier):
    def body(ch):
        return {'s': ch.free('s', [None, 'UTC', 'US/Eastern']), 't': ch.free('t', [None, 'UTC', 'Asia/Tokyo']),
                'kind': ch.free('kind', ['series', 'frame', 'ndarray']), 'max': ch.free('max', [None, 15])}
    return body


def run_err(case, obs):
    from rdtools import interpolate
    i = pd.date_range('2020-01-01', periods=4, freq='10min', tz=case['s'])
    j = pd.date_range('2020-01-01', periods=4, freq='7min', tz=case['t'])
    x = pd.Series([1.0, 2.0, 4.0, 8.0], index=i)
    if case['kind'] == 'frame':
        x = x.to_frame('a')
    kw = {} if case['max'] is None else {'max_timedelta': pd.Timedelta(minutes=case['max'])}
    mixed = (case['s'] is None) != (case['t'] is None)
    if case['kind'] == 'ndarray':
        raise Skip('no index')
    if mixed:
        expect_raises(ValueError, lambda: interpolate(x, j, **kw), 'aware/naive mix')
    else:
        g = interpolate(x, j, **kw)
        e, _, _ = models.interp(ns_of(i), [1.0, 2.0, 4.0, 8.0], ns_of(j), None if case['max'] is None else 15 * MIN)
        expect_series(g if case['kind'] == 'series' else g['a'], ns_of(j), e, 'tz')
    obs.model()
    obs.outcome = [mixed, case['kind']]


def gen_long(tier):
    def body(ch):
        n = ch.free('n', [2, 3, 40, 400])
        return {'n': n, 'step': ch.free('step', [1, 60, 1440, 10080]),
                'tstep': ch.free('tstep', [1, 7, 60, 1500]), 'max': ch.free('max', [None, 0.5, 1, 3, 50]),
                'tail': ch.free('tail', [0, 30]),
                'miss': ch.choose('miss', ['none', 'every3', 'run', 'first', 'last']), 'how': ch.choose('how', ['N', 'M']),
                'tz': ch.choose('tz', [(None, None), ('US/Eastern', 'US/Eastern')])}
    return body


def run_long(case, obs):
    from rdtools import interpolate
    c = case
    n, step = c['n'], c['step'] * MIN
    if n * c['step'] // c['tstep'] + 2 * c['tail'] > 12000:
        raise Skip('too many targets')
    t0 = ts('2020-03-01 00:00')
    out = {'none': set(), 'every3': set(range(1, n - 1, 3)), 'run': set(range(n // 3, n // 3 + min(n // 2, 60))) if n > 3 else set(),
           'first': set(range(0, min(30, n // 2))) if n > 3 else set(), 'last': set(range(n - min(30, n // 2), n)) if n > 3 else set()}[c['miss']]
    if c['miss'] != 'none' and not out:
        raise Skip('none missing')
    t, v = [], []
    for i in range(n):
        if i in out and c['how'] == 'M':
            continue
        t.append(t0 + i * step)
        v.append(NaN if i in out else float((i * 37) % 101) - 20)
    g = [t0 + j * c['tstep'] * MIN for j in range(-c['tail'], n * c['step'] // c['tstep'] + c['tail'])]
    if not g:
        raise Skip('no target')
    mx = None if c['max'] is None else int(c['max'] * step)
    exp, gaps, used = models.interp(t, v, g, mx)
    kw = {} if mx is None else {'max_timedelta': pd.Timedelta(mx, 'ns')}
    s = pd.Series(v, index=mk_index(t, c['tz'][0]))
    got = interpolate(s, mk_index(g, c['tz'][1]), **kw)
    expect_series(got, g, exp, 'interpolate')
    obs.model()
    obs.outcome = [len(g), sum(isnan(x) for x in exp)]


def families(tier):
    q = tier == 'quick'
    return [
        {'name': 'long', 'gen': gen_long(tier), 'run': run_long, 'bound': 1 if q else 2},
        {'name': 'slots', 'gen': gen(tier, 'slots'), 'run': run, 'bound': 3 if q else 7},
        {'name': 'variants', 'gen': gen(tier, 'var'), 'run': run, 'bound': 2 if q else 3},
        {'name': 'frame', 'gen': gen_frame(tier), 'run': run_frame, 'bound': 3 if q else 4},
        {'name': 'tzmix', 'gen': gen_err(tier), 'run': run_err, 'bound': 0},
    ]
