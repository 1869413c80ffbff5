"""C04 irradiance_rescale: one constant factor, the fixed point of the clear-sky least squares, or an error."""
import math

import numpy as np
import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = [
    'scenarios in which a clear-sky index comes within 0.2 % of a filter bound, or a step within 5e-4 of the '
    'convergence threshold, are skipped (the verdict would depend on the optimiser tolerance)',
    'scenarios whose initial percentile ratio leaves no point inside the filter are outside the domain',
]
# a clear-sky day (modeled), incl. night zeros and values below the 200 W/m2 limit
SIM = [0.0, 150.0, 420.0, 610.0, 805.0, 930.0, 1000.0, 900.0, 760.0, 590.0, 380.0, 120.0]
RATIO = {'K': 1.0, 'C': 0.55, 'O': 1.45, 'L': 0.93, 'H': 1.06, 'D': 0.84, 'U': 1.17}
TH = 1e-6


def pct(xs, p):
    return quantile(xs, p / 100)


def step(f, meas, sim, low=200.0):
    """points kept with factor f and the least-squares factor over them; None when undecidable"""
    num = den = 0.0
    n = 0
    for m, s in zip(meas, sim):
        if isnan(m) or isnan(s) or s * f == 0:
            continue
        c = m / (f * s)
        if low is not None and abs(m - low) < 1e-6 * low:
            return None
        if abs(c - 0.8) < 2e-3 or abs(c - 1.2) < 2e-3:
            return None
        if 0.8 <= c <= 1.2 and (low is None or m > low):
            num += m * s
            den += s * s
            n += 1
    if n == 0:
        return None
    return num / den


def gen(tier):
    def body(ch):
        sl = ''.join(ch.choose('s%d' % i, ('KCLDN' if i % 2 else 'KOHUMS') if tier == 'quick' else 'KCOLHDUNMS') for i in range(2, 11))
        return {'slots': sl, 'k': ch.free('k', [1.0, 0.8, 1.25, 2.0, 0.5]),
                'method': ch.free('method', ['iterative', 'single_opt']),
                'maxit': ch.choose('maxit', [100, 0, 1, 2, 3, 5]),
                'thr': ch.choose('thr', [TH, 1e-2, 0.2]),
                'tz': ch.choose('tz', [None, 'US/Eastern']),
                'ext': ch.choose('ext', [None, 'sim_longer', 'meas_longer', 'sim_nan', 'rev', 'night_neg', 'sim_neg', 'spike']),
                'scale': ch.choose('scale', [1.0, 0.55]), 'days': ch.choose('days', [1, 2])}
    return body


def run(case, obs):
    from rdtools import irradiance_rescale
    from rdtools.normalization import ConvergenceError
    c = case
    meas_t, meas, sim_t, sim = [], [], [], []
    slots = 'KK' + c['slots'] + 'K'
    for d in range(c['days']):
        for i, s in enumerate(SIM):
            t = d * DAY + i * HOUR
            g = s * (1.0 if d == 0 else 0.97) * c['scale']
            x = slots[i] if d == 0 else 'K'
            sim_t.append(t)
            sim.append(NaN if x == 'S' else g)
            if x == 'M':
                continue
            meas_t.append(t)
            meas.append(NaN if x == 'N' else g * c['k'] * RATIO.get(x, 1.0))
    if c['ext'] == 'sim_longer':
        sim_t += [30 * DAY, 30 * DAY + HOUR]
        sim += [500.0, 700.0]
    elif c['ext'] == 'meas_longer':
        meas_t += [30 * DAY, 30 * DAY + HOUR]
        meas += [500.0, 700.0]
    elif c['ext'] == 'sim_nan':
        sim[6] = NaN
    elif c['ext'] == 'night_neg':          # pyranometer offsets at night, in both series
        sim_t += [30 * DAY, 30 * DAY + HOUR]
        sim += [-2.0, -1.5]
        meas_t += [30 * DAY, 30 * DAY + HOUR]
        meas += [-4.5, -0.3]
    elif c['ext'] == 'sim_neg':            # negative where nothing was measured
        sim_t += [30 * DAY, 30 * DAY + HOUR]
        sim += [-2.0, -70.0]
    elif c['ext'] == 'spike':              # a modelled value beyond any physical irradiance, not measured
        sim_t += [30 * DAY]
        sim += [2600.0]
    irr = pd.Series(meas, index=mk_index(meas_t, c['tz']), name='meas')
    mod = pd.Series(sim, index=mk_index(sim_t, c['tz']), name='sim')
    if c['ext'] == 'rev':
        irr = irr.iloc[::-1]
    mm = dict(zip(meas_t, meas))
    pm = [mm.get(t, NaN) for t in sim_t]
    f0 = pct([x for x in meas if not isnan(x)], 90) / pct([x for x in sim if not isnan(x)], 90)
    kw = {}
    if c['method'] != 'iterative':
        kw['method'] = c['method']
    if c['maxit'] != 100:
        kw['max_iterations'] = c['maxit']
    if c['thr'] != TH:
        kw['convergence_threshold'] = c['thr']

    exp = 'raise'
    if c['method'] == 'iterative':
        f, prev, it = f0, 1.0, 0
        while abs(f - prev) > c['thr']:
            if c['thr'] > 1e-3 and abs(abs(f - prev) - c['thr']) < 5e-4:
                raise Skip('step at the threshold')
            it += 1
            if it > c['maxit']:
                break
            prev, f = f, step(f, pm, sim)
            if f is None:
                raise Skip('undecidable or empty filter')
            # the optimiser is only accurate to 1e-4: how many tiny steps it needs is not decided
            if c['maxit'] != 100 and 0 < abs(f - prev) < 5e-4 and c['thr'] < 1e-3:
                raise Skip('step below optimiser accuracy')
        else:
            exp = f
        if c['maxit'] == 100 and exp == 'raise':
            raise Skip('no fixed point')
    else:
        from scipy.optimize import minimize
        a, b = np.array(pm, float), np.array(sim, float)

        def obj(x):
            with np.errstate(all='ignore'):
                q = a / (x * b)
                k = (q >= 0.8) & (q <= 1.2)
                d = x * b[k] - a[k]
            return math.sqrt((d ** 2).mean()) if k.any() else NaN
        if step(f0, pm, sim, None) is None:
            raise Skip('undecidable or empty filter')
        r = minimize(lambda x: obj(x[0]), f0, method='Nelder-Mead')
        exp = float(r['x'][0])
    try:
        got = irradiance_rescale(irr, mod, **kw)
    except ConvergenceError:
        # with few iterations allowed, optimiser noise (1e-4) may exceed the threshold once more
        check(exp == 'raise' or c['maxit'] != 100, 'ConvergenceError although the iteration converges to %s', exp)
        obs.model()
        obs.outcome = 'raise'
        return
    check(exp != 'raise', 'a result was returned although the iteration has not converged in max_iterations')
    check(isinstance(got, pd.Series), 'not a Series')
    expect_times(got.index, ns_of(mod.index), 'rescaled index')
    g, m = got.to_numpy(dtype=float), mod.to_numpy(dtype=float)
    pos = [i for i in range(len(m)) if not isnan(m[i]) and m[i] != 0]
    fac = g[pos[0]] / m[pos[0]]
    check(same_values(g, fac * m, rtol=1e-9), 'not one constant times the model: %s', (g / m).tolist())
    check(abs(fac - exp) <= 3e-4 * max(1, exp), 'factor %s, expected %s', fac, exp)
    if set(slots) <= set('KNMS') and c['ext'] not in ('meas_longer',) and (c['method'] == 'single_opt' or c['thr'] == TH) \
            and abs(f0 / c['k'] - 1) < 0.15 and not abs(f0 - 1) <= c['thr']:
        check(abs(fac / c['k'] - 1) < 3e-4, 'measurement is exactly %s x model but factor is %s', c['k'], fac)
    if c['method'] == 'iterative' and c['thr'] == TH and abs(f0 - 1) > TH:
        fp = step(fac, pm, sim)
        if fp is not None:
            check(abs(fp - fac) < 3e-4 * max(1, fp), 'factor %s is not a fixed point (least squares gives %s)', fac, fp)
    obs.model()
    obs.outcome = [round(float(fac), 3), c['method']]


def gen_bad(tier):
    def body(ch):
        return {'method': ch.free('m', ['Iterative', '', None, 'single', 'error']),
                'k': ch.free('k', [1.0, 1.1])}
    return body


def run_bad(case, obs):
    from rdtools import irradiance_rescale
    s = pd.Series(SIM, index=mk_index([i * HOUR for i in range(len(SIM))]))
    expect_raises(ValueError, lambda: irradiance_rescale(s * case['k'], s, method=case['method']), 'unknown method')
    obs.model()
    obs.outcome = 'bad'


def families(tier):
    q = tier == 'quick'
    return [{'name': 'factor', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'bad', 'gen': gen_bad(tier), 'run': run_bad, 'bound': 0}]
