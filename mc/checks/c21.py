"""C21 annual soiling ratios and monthly soiling rates summarise the SRR results exactly."""
import math

import numpy as np
import pandas as pd

from mc import rng
from mc.lib import *  # noqa

ASSUMPTIONS = ['the oracle for monthly rates holds for every sequence of draws (rank bounds); exact where the slope bounds coincide',
               'an interval whose rate is exactly zero has an undefined relative error and is not judged', 'uniformity of the samples is judged on fixed seeds with seven standard errors']


# --------------------------------------------------------------------------- annual
def gen_annual(tier):
    q = tier == 'quick'

    def body(ch):
        c = {'start': ch.choose('start', ['2019-12-28', '2020-01-01', '2018-06-01', '2020-12-31', '2019-02-27']), 'n': ch.choose('n', [12, 1, 4, 380, 760]),
             'np': ch.choose('profiles', [3, 1, 2, 6]), 'cl': ch.choose('cl', [68.2, 95, 0, 100, 50]),
             'nan': ch.choose('nan', [None, 'one_profile', 'first_day', 'all_of_one_day', 'last']),
             'insol': ch.choose('insol', ['same', 'longer', 'shorter', 'nan', 'unsorted', 'zero_year', 'gappy', 'intidx']),
             'lens': ch.choose('lens', ['same', 'staggered', 'unordered']), 'tz': ch.choose('tz', [None, 'America/Denver', 'UTC'])}
        c['names'] = ch.choose('names', ['same', 'none', 'distinct'])
        return c
    return body


def run_annual(c, obs):
    from rdtools.soiling import annual_soiling_ratios
    i = pd.date_range(c['start'], periods=c['n'], freq='D', tz=c['tz'])
    profs = []
    for k in range(c['np']):
        v = np.array([1 - 0.003 * ((j * (k + 2)) % 17) - 0.01 * k * (j % 2) for j in range(c['n'])])
        profs.append(pd.Series(v, i, name='stochastic_soiling_profile' if c['names'] == 'same' else (None if c['names'] == 'none' else 'p%d' % k)))
    if c['nan'] == 'one_profile':
        profs[0].iloc[c['n'] // 2] = np.nan
    elif c['nan'] == 'first_day':
        profs[-1].iloc[0] = np.nan
    elif c['nan'] == 'all_of_one_day':
        for p in profs:
            p.iloc[c['n'] // 2] = np.nan
    elif c['nan'] == 'last':
        profs[0].iloc[-1] = np.nan
    if c['lens'] == 'staggered' and c['n'] > 3:
        profs = [p.iloc[(k % 2):len(p) - (k % 2)] for k, p in enumerate(profs)]
    elif c['lens'] == 'unordered' and c['n'] > 3:
        profs = [p.iloc[::-1] if k % 2 else p for k, p in enumerate(profs)]
    ins = pd.Series([2.0 + (j % 5) for j in range(c['n'])], i)
    k = c['insol']
    if k == 'longer':
        j = pd.date_range(i[0] - pd.Timedelta('2D'), periods=c['n'] + 5, freq='D')
        ins = ins.reindex(j).fillna(7.0)
    elif k == 'shorter':
        ins = ins.iloc[1:]
    elif k == 'nan':
        ins.iloc[0] = np.nan
    elif k == 'unsorted':
        ins = ins.iloc[::-1]
    elif k == 'zero_year':
        ins[ins.index.year == i[0].year] = 0.0
    elif k == 'gappy' and c['n'] > 6:
        ins = ins.drop(ins.index[[2, 5]])
    elif k == 'intidx':
        ins = ins.astype(int)
    before = [snap(x) for x in profs] + [snap(ins)]
    args = list(profs)
    w = with_warnings(lambda: annual_soiling_ratios(profs, ins, confidence_level=c['cl']) if c['cl'] != 68.2 else annual_soiling_ratios(profs, ins))
    check([snap(x) for x in profs] + [snap(ins)] == before and all(a is b for a, b in zip(args, profs)), 'inputs modified')
    # reference: days present in every profile with a value
    maps = [dict(zip(ns_of(p.index), p.to_numpy())) for p in profs]
    days = [t for t in sorted(set().union(*maps)) if all(m.get(t, NaN) == m.get(t, NaN) for m in maps)]
    yr = dict(zip(ns_of(i), i.year))
    im = dict(zip(ns_of(ins.index), ins.to_numpy(dtype=float)))
    check(w.any(UserWarning, 'not entirely') == (not all(t in im for t in days)), 'index warning')
    ref = {}
    for t in days:
        ref.setdefault(int(yr[t]), []).append(t)
    out = w.result
    check(list(out.columns) == ['year', 'soiling_ratio_median', 'soiling_ratio_low', 'soiling_ratio_high'], 'columns %s', list(out.columns))
    check([int(y) for y in out['year']] == sorted(ref), 'years %s expected %s', list(out['year']), sorted(ref))
    for row in out.to_dict('records'):
        ts_ = [t for t in ref[int(row['year'])] if im.get(t, NaN) == im.get(t, NaN)]
        tot = sum(im[t] for t in ts_)
        if tot == 0:
            check(all(math.isnan(row[x]) for x in ('soiling_ratio_median', 'soiling_ratio_low', 'soiling_ratio_high')), 'a year without insolation gives %s', row)
            continue
        r = [sum(m[t] * im[t] for t in ts_) / tot for m in maps]
        e = [quantile(r, .5), quantile(r, .5 - c['cl'] / 200), quantile(r, .5 + c['cl'] / 200)]
        g = [row['soiling_ratio_median'], row['soiling_ratio_low'], row['soiling_ratio_high']]
        check(same_values(g, e, 1e-9), 'year %s: median, low, high %s expected %s', row['year'], g, e)
        check(g[1] <= g[0] + 1e-12 and g[0] <= g[2] + 1e-12, 'bounds not ordered')
    obs.model()
    obs.outcome = [len(ref), c['cl']]


# --------------------------------------------------------------------------- monthly
SPANS = [('2020-01-10', 20), ('2020-01-25', 20), ('2019-12-20', 45), ('2020-02-20', 14), ('2020-03-01', 13), ('2020-03-05', 200), ('2021-01-28', 400), ('2020-02-28', 1),
         ('2020-05-31', 30), ('2020-06-01', 29)]


def gen_monthly(tier):
    q = tier == 'quick'

    def body(ch):
        n = ch.choose('n', [2, 1, 3, 0])
        iv = []
        for k in range(n):
            iv.append({'span': (ch.free('span0', SPANS) if k == 0 else ch.choose('span1', [SPANS[0], SPANS[2], SPANS[5], SPANS[7]])) if k < 2 else SPANS[3],
                       'rate': ch.choose('rate%d' % k, [-0.004 - 0.002 * k, -0.0005, -0.02]),
                       'width': ch.choose('width%d' % k, [0.0, 0.5, 1.0, 4.99, 5.01, 2.0]),
                       'valid': ch.choose('valid%d' % k, [True, False])})
        c = {'iv': iv, 'reps': ch.choose('reps', [10, 1, 7, 400]), 'cl': ch.choose('cl', [68.2, 95, 0, 100]), 'mil': ch.choose('mil', [14, 0, 21, 31, 30]),
             'mrse': ch.choose('mrse', [500.0, 60.0, 1000.0]), 'draws': ch.choose('draws', [None, [0.0], [1.0], [0.0, 1.0, 0.3]]), 'tz': ch.choose('tz', [None, 'America/Denver']),
             'extra': ch.choose('extra', [False, True])}
        return c
    return body


def run_monthly(c, obs):
    from rdtools.soiling import monthly_soiling_rates
    rows = []
    for d in c['iv']:
        a = pd.Timestamp(d['span'][0], tz=c['tz'])
        b = a + pd.DateOffset(days=d['span'][1])
        w = abs(d['rate']) * d['width']
        rows.append({'start': a, 'end': b, 'soiling_rate': d['rate'], 'soiling_rate_low': d['rate'] - w * .6, 'soiling_rate_high': d['rate'] + w * .4,
                     'inferred_start_loss': 1.0, 'inferred_end_loss': .9, 'length': d['span'][1], 'valid': d['valid']})
    df = pd.DataFrame(rows, columns=['start', 'end', 'soiling_rate', 'soiling_rate_low', 'soiling_rate_high', 'inferred_start_loss', 'inferred_end_loss', 'length', 'valid'])
    if not rows:
        df = df.astype({'soiling_rate': float, 'soiling_rate_low': float, 'soiling_rate_high': float, 'length': int, 'valid': bool})
    if c['extra']:
        df.index = [chr(97 + k) for k in range(len(df))]
        df.insert(0, 'samples_for_month', 5)
    before = snap(df)
    kw = {}
    if c['mil'] != 14:
        kw['min_interval_length'] = c['mil']
    if c['mrse'] != 500.0:
        kw['max_relative_slope_error'] = c['mrse']
    if c['cl'] != 68.2:
        kw['confidence_level'] = c['cl']
    call = lambda: monthly_soiling_rates(df, reps=c['reps'], **kw)  # noqa
    if c['draws'] is None:
        np.random.seed(4)
        out = call()
    else:
        with rng.drive(c['draws']):
            out = call()
    check(snap(df) == before, 'the summary was modified')
    use = []
    for r in rows:
        err = 100 * (r['soiling_rate_high'] - r['soiling_rate_low']) / abs(r['soiling_rate'])
        if abs(err - c['mrse']) < 1e-6:
            raise Skip('on the error limit')
        if r['valid'] and r['length'] >= c['mil'] and err <= c['mrse']:
            use.append(r)
    days = [[t.month for t in pd.date_range(r['start'].tz_localize(None), r['end'].tz_localize(None), freq='D')] for r in use]
    check(list(out.columns) == ['month', 'soiling_rate_median', 'soiling_rate_low', 'soiling_rate_high', 'interval_count'], 'columns %s', list(out.columns))
    check(list(out['month']) == list(range(1, 13)), 'months %s', list(out['month']))
    cnts = []
    for row in out.to_dict('records'):
        m = int(row['month'])
        k = [d.count(m) for d in days]
        tot = sum(k)
        g = [row['soiling_rate_median'], row['soiling_rate_low'], row['soiling_rate_high']]
        check(int(row['interval_count']) == sum(x > 0 for x in k), 'month %s: %s intervals, expected %s', m, row['interval_count'], sum(x > 0 for x in k))
        cnts.append(int(row['interval_count']))
        if tot == 0:
            check(all(math.isnan(x) for x in g), 'month %s without an interval: %s', m, g)
            continue
        lo, hi = [], []
        for x, r in zip(k, use):
            if x:
                fr = x * c['reps'] / tot
                s = math.ceil(fr)
                if 0 < abs(fr - round(fr)) < 1e-9:
                    raise Skip('sample count on a rounding boundary')
                lo += [r['soiling_rate_low']] * s
                hi += [r['soiling_rate_high']] * s
        for v, p, nm in zip(g, (.5, .5 - c['cl'] / 200, .5 + c['cl'] / 200), ('median', 'low', 'high')):
            check(quantile(lo, p) - 1e-12 <= v <= quantile(hi, p) + 1e-12, 'month %s %s: %s outside [%s, %s]', m, nm, v, quantile(lo, p), quantile(hi, p))
        check(g[1] <= g[0] + 1e-15 and g[0] <= g[2] + 1e-15, 'month %s: bounds not ordered %s', m, g)
        if c['reps'] == 400 and c['draws'] is None and sum(x > 0 for x in k) == 1:
            r = [r for x, r in zip(k, use) if x][0]
            a, w = r['soiling_rate_low'], r['soiling_rate_high'] - r['soiling_rate_low']
            if w > 1e-9:
                for v, p in zip(g, (.5, .5 - c['cl'] / 200, .5 + c['cl'] / 200)):
                    check(abs((v - a) / w - p) <= 7 * math.sqrt(p * (1 - p) / 400) + .02, 'month %s: %s is not the %s quantile of a uniform distribution', m, v, p)
    obs.model()
    obs.outcome = cnts


def families(tier):
    q = tier == 'quick'
    return [{'name': 'annual', 'gen': gen_annual(tier), 'run': run_annual, 'bound': 3 if q else 5},
            {'name': 'monthly', 'gen': gen_monthly(tier), 'run': run_monthly, 'bound': 2 if q else 3}]
