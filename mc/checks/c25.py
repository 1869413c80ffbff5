"""C25 availability: whole-system outages are found once, classified by the meter, and conserve energy."""
import numpy as np
import pandas as pd

from mc import avail
from mc.checks.c24 import base, STEP
from mc.lib import *  # noqa

ASSUMPTIONS = ['regular time index without missing rows (documented requirement)', 'classifications within rounding of the bound are not judged',
               'records that are dark from end to end are outside the domain (nothing to learn the uncertainty from)']
DAYS = 6
PER = 24 // STEP
KIND = ['real', 'comms', 'comms_cumnan', 'comms_cumnan_end', 'partial', 'partial_hi', 'reset', 'netmeter', 'zero_all', 'real_nan', 'cumnan_start', 'slightly_low', 'inv_comms']


def gen(tier):
    q = tier == 'quick'

    def body(ch):
        n = DAYS * PER
        # start: record start, each slot of day 3 (dark and light), last day, record end
        starts = [0, 1, 3, 5, PER + 4] + [2 * PER + k for k in range(0, PER, 1)] + [5 * PER + 4, n - 2, n - 1]
        lens = [1, 2, 3, 6, PER, PER + 5, 2 * PER]
        c = {'o': [[ch.free('s', starts), ch.free('l', lens), ch.free('k', KIND)]], 'o2': None}
        g = ch.choose('second', [None, 0, 1, 3, PER, 'same_day', 'last'])
        if g is not None:
            a = c['o'][0][0] + c['o'][0][1] + (g if isinstance(g, int) else 0)
            if g == 'last':
                a = n - 4
            if g == 'same_day':
                a = c['o'][0][0] + c['o'][0][1] + 2
            c['o'].append([a, ch.free('l2', [1, 4] if q else [1, 2, 4, PER]), ch.free('k2', KIND[:2] + (['comms_cumnan_end', 'partial'] if not q else []))])
        c['q'] = ch.choose('q', [[0.01, 0.99], [0.25, 0.75], [0.0, 1.0]])
        c['sub'] = ch.choose('sub', ['none', 'one_down', 'one_nan'])
        c['freq'] = ch.choose('freq', [True, False])
        c['tz'] = ch.choose('tz', [None, 'America/Denver'])
        c['roll'] = ch.choose('roll', ['D', 'ME'])
        c['expnan'] = ch.choose('expneg', [0, 1])
        if c['o'][0][0] + c['o'][0][1] > n and c['o'][0][0] != 5 * PER + 4 and c['o'][0][0] < n - 2:
            return None
        return c
    return body


def build(c):
    i, sub, exp = base(DAYS, 2, [1.0, 1.0], tz=c['tz'], freq=c['freq'])
    n = len(i)
    true = sum(sub.values())
    meter = true.copy()
    sub = {k: v.copy() for k, v in sub.items()}
    if c['expnan']:
        exp = np.where(exp == 0, -3.0, exp)       # models report small negative power at night
    if c['sub'] != 'none':
        a = 3 * PER + 3
        sub['inv0'][a:a + 5] = 0.0 if c['sub'] == 'one_down' else np.nan
        meter[a:a + 5] = sub['inv1'][a:a + 5]
        true = meter.copy()
    prod = true.copy()
    cum_gap = []
    resets = []
    for a, l, k in c['o']:
        b = min(a + l, n)
        if a >= n:
            continue
        sl = slice(a, b)
        for nm in sub:
            sub[nm][sl] = np.nan if k in ('real_nan', 'comms_cumnan') else 0.0
        if k in ('real', 'real_nan', 'zero_all', 'reset', 'cumnan_start'):
            prod[sl] = 0.0
        elif k == 'netmeter':
            prod[sl] = -0.004 * 100
        elif k == 'partial':
            prod[sl] *= 0.4
        elif k == 'partial_hi':
            prod[sl] *= 0.8
        elif k == 'slightly_low':
            prod[sl] *= 0.97
        if k == 'inv_comms':       # only the inverters stop reporting, the meter goes on
            continue
        meter[sl] = {'comms': np.nan, 'real': 0.0}.get(k, np.nan if k != 'zero_all' else 0.0)
        if k == 'comms_cumnan':
            cum_gap.append((a, b - 1))
        elif k == 'comms_cumnan_end':
            cum_gap.append((max(b - 3, 0), b))
        elif k == 'cumnan_start':
            cum_gap.append((max(a - 2, 0), a))
        elif k == 'reset':
            resets.append(b - 1)
        elif k == 'zero_all':
            cum_gap.append((a, b, 0.0))
    cum = np.cumsum(prod) * STEP + 500.0
    for r in resets:
        cum[r:] -= cum[r] - 1.0
    for g in cum_gap:
        cum[g[0]:g[1]] = g[2] if len(g) == 3 else np.nan
    return i, meter, sub, cum, exp


COLS = ['intervals', 'daylight_intervals', 'error_lower', 'error_upper', 'energy_expected', 'energy_start', 'energy_end', 'energy_actual',
        'ci_lower', 'ci_upper', 'loss']


def run(case, obs):
    from rdtools import AvailabilityAnalysis, energy_from_power
    c = case
    i, meter, sub, cum, exp = build(c)
    try:
        on, loss = avail.subsystem(list(meter), {k: list(v) for k, v in sub.items()}, None, None, None)
        r = avail.system(list(meter), list(cum), list(exp), on, loss, STEP, c['q'])
    except avail.Tie:
        raise Skip('on a threshold')
    P, S = pd.Series(meter, index=i), pd.DataFrame(sub, index=i)
    C, E = pd.Series(cum, index=i), pd.Series(exp, index=i)
    before = [snap(x) for x in (P, S, C, E)]
    a = AvailabilityAnalysis(P, S, C, E)
    a.run(quantiles=tuple(c['q']), rollup_period=c['roll'])
    check([snap(x) for x in (P, S, C, E)] == before, 'inputs modified')
    info = a.outage_info
    exp_o = r['outages']
    got = [(str(s), str(e), t) for s, e, t in zip(info['start'], info['end'], info['type'])]
    want = [(str(i[o['a']]), str(i[o['b']]), o['type']) for o in exp_o]
    check(got == want, 'outages (start, end, type) %s expected %s', got, want)
    for row, o in zip(info.to_dict('records'), exp_o):
        check(row['duration'] == i[o['b']] - i[o['a']], 'duration')
        for k in COLS:
            check(same_float(row[k], o[k], 1e-6, 1e-6), '%s of the outage at %s: %s expected %s', k, row['start'], row[k], o[k])
    ns = ns_of(i)
    expect_series(a.loss_system, ns, r['loss_system'], 'loss_system', rtol=1e-6, atol=1e-6)
    expect_series(a.energy_cumulative_corrected, ns, r['corrected'], 'energy_cumulative_corrected', rtol=1e-7, atol=1e-6)
    expect_series(a.power_expected_rescaled, ns, r['scaled'], 'power_expected_rescaled', rtol=1e-7, atol=1e-7)
    # statements on top of the reference
    en = energy_from_power(a.loss_system)
    ls = a.loss_system.to_numpy()
    inside = np.zeros(len(i), bool)
    for o in exp_o:
        seg = slice(o['a'], o['b'] + 1)
        inside[seg] = True
        e = en.reindex(i).iloc[seg]
        if o['type'] == 'real':
            if not c['expnan']:
                check((ls[seg] >= -1e-9).all(), 'negative system loss')
            check(same_float(e.sum(), o['loss'], 1e-6, 1e-6), 'system loss integrates to %s, shortfall %s', e.sum(), o['loss'])
        elif o['type'] == 'comms':
            check((ls[seg] == 0).all(), 'loss during a communication interruption')
        cor = a.energy_cumulative_corrected
        if o['type'] != 'unknown':
            check(same_float(cor.iloc[o['b']], cum[o['b']], 1e-7, 1e-6), 'corrected energy %s at the end of the outage, meter %s', cor.iloc[o['b']], cum[o['b']])
            st = cum[max(o['a'] - 1, 0)]
            if not c['expnan'] and cum[o['b']] >= st:
                v = np.concatenate([[st], cor.iloc[seg].to_numpy()])
                check((np.diff(v) >= -1e-6).all(), 'corrected energy not monotone')
    check((ls[~inside] == 0).all(), 'system loss outside outages')
    g = a.energy_cumulative_corrected.to_numpy()
    check(same_values(g[~inside], cum[~inside]), 'corrected energy differs from the meter outside outages')
    # running again on the same object and on a fresh one
    s1 = [snap(x) for x in (a.outage_info, a.loss_system, a.energy_cumulative_corrected, a.results, a.loss_total)]
    a.run(quantiles=tuple(c['q']), rollup_period=c['roll'])
    check([snap(x) for x in (a.outage_info, a.loss_system, a.energy_cumulative_corrected, a.results, a.loss_total)] == s1, 'second run differs')
    lab = [(t.year, t.month, t.day if c['roll'] == 'D' else 0) for t in i]
    tot = [x + y for x, y in zip(loss, r['loss_system'])]
    ref = avail.rollup(lab, tot, r['corrected'], STEP)
    check(len(a.results) == len(ref), 'periods')
    for (p, (lo, ac, av)), (t, row) in zip(ref.items(), a.results.iterrows()):
        for nm, v in (('lost_production', lo), ('actual_production', ac)):
            check(same_float(row[nm], v, 1e-6, 1e-6), '%s in %s: %s expected %s', nm, p, row[nm], v)
    obs.model()
    obs.outcome = [[(o['a'], o['b'], o['type'], round(o['loss'], 3) if o['loss'] == o['loss'] else None) for o in exp_o]]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'outages', 'gen': gen(tier), 'run': run, 'bound': 0 if q else 2},
            {'name': 'variants', 'gen': gen_var(tier), 'run': run, 'bound': 2 if q else 3}]


def gen_var(tier):
    def body(ch):
        n = DAYS * PER
        c = {'o': [[ch.choose('s', [2 * PER + 5, 0, 2, PER + 1, 3 * PER - 1, 5 * PER + 3, n - 1]), ch.choose('l', [3, 1, 2, PER, PER + 7, 2 * PER]),
                    ch.choose('k', KIND)]]}
        g = ch.choose('second', [None, 0, 1, 2, 4, PER, 2 * PER])
        if g is not None:
            c['o'].append([min(c['o'][0][0] + c['o'][0][1] + g, n - 1), ch.choose('l2', [2, 1, 4, PER]), ch.choose('k2', KIND)])
        c['q'] = ch.choose('q', [[0.01, 0.99], [0.25, 0.75], [0.0, 1.0]])
        c['sub'] = ch.choose('sub', ['none', 'one_down', 'one_nan'])
        c['freq'] = ch.choose('freq', [True, False])
        c['tz'] = ch.choose('tz', [None, 'America/Denver'])
        c['roll'] = ch.choose('roll', ['D', 'ME'])
        c['expnan'] = ch.choose('expneg', [0, 1])
        return c
    return body
