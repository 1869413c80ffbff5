"""C19 SRR: soiling intervals partition the record and follow the documented criteria."""
import numpy as np
import pandas as pd

from mc import srr
from mc.lib import *  # noqa

ASSUMPTIONS = ['scipy.stats.mstats.theilslopes is trusted for the slope and its confidence bounds',
               'steps, slopes and errors within rounding of a threshold are not judged']
METHODS = ['perfect_clean', 'half_norm_clean', 'random_clean']
RAIN = [None, [[20, 2.0], [41, 2.0]], [[19, 2.0], [42, 2.0]], [[18, 2.0], [43, 2.0]], [[20, 0.5], [41, 0.5], [10, 0.01]],
        [[0, 5.0], [63, 5.0], [30, 5.0]], [[29, 1.0], [30, 1.0], [31, 1.0], [50, 0.6]]]


def gen(tier):
    def body(ch):
        c = srr.base_case(ch, tier == 'quick')
        c['kw'] = srr.kw_case(ch)
        c['rain'] = ch.choose('rain', RAIN)
        c['method'] = ch.choose('method', METHODS)
        c['t0'] = ch.choose('t0', ['2020-01-05', '2021-02-15'])
        c['tz'] = ch.choose('tz', [None, 'America/Denver'])
        c['freq'] = ch.choose('freq', [True, False])
        c['scale'] = ch.choose('scale', [1.0, 0.83, 250.0])
        c['ends'] = ch.choose('ends', [0, 1, 2])        # missing values at the ends of the record
        c['insol'] = ch.choose('insol', ['same', 'longer', 'shorter', 'nan'])
        return c
    return body


def gen_gap(tier):
    """position and length of missing data relative to the day scale and the cleaning events, exhaustively"""
    def body(ch):
        d = ch.free('day_scale', [3, 5] if tier == 'quick' else [3, 4, 5, 7])
        c = {'n': 46, 'cleans': [[22, 1.0]], 'rates': ch.choose('rates', [[-0.004, -0.006], [-0.005, 0.001]]), 'noise': 0.001, 'day_scale': d,
             'nans': [[ch.free('at', list(range(0, 46, 1))), ch.free('len', [1, d - 1, d, d + 1, d + 6])]], 'method': 'perfect_clean', 'rain': None}
        rain = ch.choose('rain', [None, 'precip', 'precip_or_shift', 'precip_and_shift'])
        if rain:
            c['rain'] = [[c['nans'][0][0], 2.0], [23, 2.0], [33, 2.0]]
        g2 = ch.choose('gap2', [None, 1, 2])
        if g2 is not None:
            a = c['nans'][0]
            c['nans'].append([a[0] + a[1] + g2, ch.free('len2', [1, d, d + 1])])
        c['kw'] = {'clean_criterion': rain or 'shift', 'min_interval_length': ch.choose('mil', [4, 2, 10]), 'trim': ch.choose('trim', [False, True]),
                   'clean_threshold': ch.choose('thr', ['infer', 0.03])}
        return c
    return body


def gen_rain(tier):
    """rain on every day around the cleaning events under all criteria"""
    def body(ch):
        c = {'n': 60, 'cleans': [[20, 1.0], [40, 1.0]], 'rates': [-0.004, -0.006], 'noise': 0.001, 'day_scale': 5, 'nans': [], 'method': 'perfect_clean'}
        a = ch.free('d1', list(range(15, 26)) + [0, 1, 59])
        c['rain'] = [[a, ch.free('amt', [0.01, 0.011, 3.0])]]
        b = ch.choose('d2', [None, 37, 38, 39, 40, 41, 42, 43])
        if b is not None:
            c['rain'].append([b, 1.0])
        c['kw'] = {'clean_criterion': ch.free('crit', ['precip_and_shift', 'precip_or_shift', 'precip', 'shift']),
                   'precip_threshold': ch.choose('pthr', [0.01, 1.0, 0.0]), 'min_interval_length': ch.choose('mil', [4, 2]),
                   'clean_threshold': ch.choose('thr', ['infer', 0.03])}
        c['drop'] = ch.choose('drop', [None, 20, 22, 39])
        c['nanrain'] = ch.choose('nanrain', [False, True])
        return c
    return body


def gen_long(tier):
    """records longer than the year used for recentering"""
    def body(ch):
        n = ch.free('n', [366, 400] if tier == 'quick' else [364, 365, 366, 367, 400, 800])
        c = {'n': n, 'cleans': [[k, 1.0 if k < 300 else 0.8] for k in range(40, n, 40)], 'rates': [-0.002, -0.003, -0.001], 'noise': 0.002,
             'day_scale': 13, 'nans': [], 'method': 'perfect_clean', 'rain': None, 't0': ch.choose('t0', ['2019-01-01', '2020-02-10', '2020-03-08', '2020-10-31']),
             'tz': ch.choose('tz', [None, 'America/Denver', 'Europe/Berlin']), 'ends': ch.choose('ends', [0, 1, 2]),
             'drop': ch.choose('drop', [None, 180]), 'kw': {'recenter': ch.choose('recenter', [True, False]), 'trim': ch.choose('trim', [False, True])}}
        return c
    return body


def data(c):
    i, v, ins, p = srr.frame(c)
    if c.get('ends'):
        v[0] = NaN
        v[-1] = NaN
        if c['ends'] == 2:
            v[1] = v[2] = v[-2] = NaN
    if p is not None and c.get('nanrain'):
        for k in (5, 21, 50):
            p[k] = NaN
    pm = pd.Series(v, index=i, name='pm')
    insol = pd.Series(ins, index=i)
    k = c.get('insol', 'same')
    if k == 'longer':
        j = pd.date_range(i[0] - pd.Timedelta('3D'), periods=len(i) + 6, freq='D')
        insol = insol.reindex(j).fillna(4.0)
    elif k == 'shorter':
        insol = insol.iloc[4:-3]
    elif k == 'nan':
        insol.iloc[[3, 24]] = np.nan
    pr = None if p is None else pd.Series(p, index=i)
    return i, v, p, pm, insol, pr


def kwargs(c):
    kw = dict(srr.SRR_KW)
    kw.update(c['kw'])
    kw['day_scale'] = c['day_scale']
    return kw


def reference(c, v, p):
    kw = kwargs(c)
    if p is None and kw['clean_criterion'] != 'shift':
        p = [0.0] * len(v)
    try:
        return srr.intervals(v, p, **kw)
    except srr.Tie:
        raise Skip('within rounding of a threshold')


def run(c, obs):
    from rdtools.soiling import soiling_srr, NoValidIntervalError
    i, v, p, pm, insol, pr = data(c)
    kw = kwargs(c)
    np.random.seed(1)
    call = lambda: soiling_srr(pm, insol, reps=2, precipitation_daily=pr, method=c['method'], **kw)  # noqa
    if not any(x == x for x in v):
        raise Skip('no data')
    try:
        ref = reference(c, v, p)
    except srr.NoValid:
        expect_raises(NoValidIntervalError, call, 'no valid interval')
        obs.model()
        obs.outcome = 'none valid'
        return
    before = [snap(x) for x in (pm, insol, pr)]
    sr, ci, info = call()
    check([snap(x) for x in (pm, insol, pr)] == before, 'inputs modified')
    s = info['soiling_interval_summary']
    rows = ref['rows']
    check(same_float(info['renormalizing_factor'], ref['factor']), 'renormalizing factor %s expected %s', info['renormalizing_factor'], ref['factor'])
    got = [(str(a), str(b), int(l), bool(w)) for a, b, l, w in zip(s['start'], s['end'], s['length'], s['valid'])]
    exp = [(str(i[r['a']]), str(i[r['b']]), r['length'], r['valid']) for r in rows]
    check(got == exp, 'intervals (start, end, length, valid) %s expected %s', got, exp)
    for nm, k in (('soiling_rate', 'slope'), ('soiling_rate_low', 'low'), ('soiling_rate_high', 'high'), ('inferred_start_loss', 'start_loss'),
                  ('inferred_end_loss', 'end_loss')):
        check(same_values(s[nm], [r[k] for r in rows], 1e-8, 1e-10), '%s: %s expected %s', nm, list(s[nm]), [r[k] for r in rows])
    # a partition of the record between the first and last (or first and last kept) day
    for a, b in zip(rows, rows[1:]):
        check(b['a'] == a['b'] + 1, 'reference not a partition')
    et, ev = [], []
    for r in rows:
        if r['valid']:
            for k in range(r['a'], r['b'] + 1):
                et.append(i[k].value)
                ev.append(1 + (k - r['a']) * r['slope'])
    expect_series(info['soiling_ratio_perfect_clean'], et, ev, 'soiling_ratio_perfect_clean', 1e-8, 1e-10)
    days = ns_of(i[rows[0]['a']:rows[-1]['b'] + 1])
    check(len(info['stochastic_soiling_profiles']) == 2, 'number of profiles')
    for prof in info['stochastic_soiling_profiles']:
        check(ns_of(prof.index) == days, 'profile does not cover exactly the days of the intervals')
    obs.model()
    obs.outcome = [len(rows), sum(r['valid'] for r in rows)]


# --------------------------------------------------------------------------- rejected input
def gen_bad(tier):
    def body(ch):
        return {'which': ch.free('which', ['pm', 'insol', 'precip']), 'how': ch.free('how', ['hourly', 'two_daily', 'missing_day', 'weekly', 'unsorted', 'dup', 'ok', 'shifted12h']),
                'api': ch.free('api', ['fn', 'class']), 'criterion': ch.free('crit', ['shift', 'precip', 'sometimes'])}
    return body


def spoil(s, how):
    n = len(s)
    if how == 'hourly':
        s.index = pd.date_range(s.index[0], periods=n, freq='h')
    elif how == 'two_daily':
        s.index = pd.date_range(s.index[0], periods=n, freq='2D')
    elif how == 'weekly':
        s.index = pd.date_range(s.index[0], periods=n, freq='W')
    elif how == 'missing_day':
        s = s.drop(s.index[7])
    elif how == 'unsorted':
        s = s.iloc[[1, 0] + list(range(2, n))]
    elif how == 'dup':
        s = pd.concat([s.iloc[:5], s.iloc[4:]])
    return s


def run_bad(c, obs):
    from rdtools.soiling import soiling_srr, SRRAnalysis
    b = dict(n=60, cleans=[[20, 1.0], [40, 1.0]], rates=[-0.004], noise=0.001, nans=[], day_scale=5, rain=[[20, 1.0], [40, 1.0]])
    i, v, ins, p = srr.frame(b)
    a = {'pm': pd.Series(v, i), 'insol': pd.Series(ins, i), 'precip': pd.Series(p, i)}
    a[c['which']] = spoil(a[c['which']], c['how'])
    if c['api'] == 'fn':
        call = lambda: soiling_srr(a['pm'], a['insol'], reps=2, precipitation_daily=a['precip'], day_scale=5, clean_criterion=c['criterion'])  # noqa
    else:
        call = lambda: SRRAnalysis(a['pm'], a['insol'], a['precip']).run(reps=2, day_scale=5, clean_criterion=c['criterion'])  # noqa
    if c['how'] in ('ok', 'shifted12h') and c['criterion'] != 'sometimes':
        call()
    else:
        expect_raises(ValueError, call, '%s %s, criterion %s' % (c['how'], c['which'], c['criterion']))
    obs.model()
    obs.outcome = [c['how'], c['criterion']]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'options', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'gaps', 'gen': gen_gap(tier), 'run': run, 'bound': 1 if q else 3},
            {'name': 'rain', 'gen': gen_rain(tier), 'run': run, 'bound': 1 if q else 3},
            {'name': 'long', 'gen': gen_long(tier), 'run': run, 'bound': 2 if q else 6},
            {'name': 'rejected', 'gen': gen_bad(tier), 'run': run_bad, 'bound': 0}]
