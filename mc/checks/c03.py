"""C03 normalization: measured energy / expected energy of the same interval."""
import math

import pandas as pd

from mc import models
from mc.lib import *  # noqa

ASSUMPTIONS = ['measurement index regular (or ValueError); model index sorted, unique',
               'values from a fixed alphabet']
T0 = ts('2020-06-01 10:00')
PV = [5.0, 9.0, 0.0, 7.0, 12.0, 3.0, 8.0, 6.0]
EX = [10.0, 12.0, 8.0, 20.0, 16.0, 5.0, 9.0, 11.0, 14.0, 13.0, 7.0, 18.0]
POA = [500.0, 700.0, 650.0, 900.0, 800.0, 300.0, 450.0, 620.0, 710.0, 660.0, 390.0, 880.0]


def ref_normalize(pv_t, pv_v, freq, m_t, ex, p_t, poa, pv_input):
    if pv_input == 'power':
        lab, en = models.energy(pv_t, pv_v, freq, None, 'right_labeled')
        energy = dict(zip(lab, en))
        e_t = lab
    else:
        energy = dict(zip(pv_t, pv_v))
        e_t = pv_t
    mean = lambda t: (t[-1] - t[0]) / (len(t) - 1)   # noqa
    if mean(m_t) > mean(e_t) if len(e_t) > 1 else mean(m_t) > freq:
        ex, _, _ = models.interp(m_t, ex, pv_t, None)
        poa, _, _ = models.interp(p_t, poa, pv_t, None)
        m_t = p_t = pv_t
    le, ee = models.energy(m_t, ex, freq, None, 'right_labeled')
    li, ins = models.energy(p_t, poa, freq, None, 'right_labeled')
    expd = dict(zip(le, ee))
    insd = dict(zip(li, ins))
    out = sorted(set(energy) | set(expd) | set(insd))
    norm = []
    for u in out:
        a, b = energy.get(u, NaN), expd.get(u, NaN)
        if isnan(a) or isnan(b):
            norm.append(NaN)
        elif b == 0:
            norm.append(NaN if a == 0 else math.copysign(math.inf, a))
        else:
            norm.append(a / b)
    return out, norm, [insd.get(u, NaN) for u in out]


def gen(tier):
    n = 6

    def body(ch):
        c = {'pv_step': ch.free('pv', [30, 15, 60]), 'm_step': ch.free('m', [30, 5, 15, 60, 10, 45]),
             'pv_input': ch.free('in', ['power', 'energy']),
             'off': ch.choose('off', [0, 5, 30, -30, 15]),
             'tz': ch.choose('tz', [None, 'US/Eastern', 'UTC']),
             'attach': ch.choose('attach', [True, False]),
             'mattach': ch.choose('mattach', [True, False]),
             'pv_nan': ch.choose('pvn', [None, 0, 1, 3, 5]),
             'ex_nan': ch.choose('exn', [None, 0, 1, 2, 5, 'last']),
             'ex_zero': ch.choose('exz', [None, 1, 3]),
             'poa_nan': ch.choose('poan', [None, 0, 2, 'last']),
             'm_drop': ch.choose('mdrop', [None, 1, 3]),
             'long': ch.choose('long', [0, 2, -2]),
             'pos': ch.choose('pos', [True, False]),
             'unit': ch.choose('unit', ['ns', 'us']),
             'n': ch.choose('n', [6, 50]),
             'neg': ch.choose('neg', [None, 'pv', 'ex', 'poa', 'tiny', 'huge']),
             'pidx': ch.choose('pidx', ['same', 'shift', 'dense'])}
        return c
    return body


def run(case, obs):
    from rdtools import normalize_with_expected_power
    c = case
    n = c['n']
    ps, ms = c['pv_step'] * MIN, c['m_step'] * MIN
    pv_t = [T0 + i * ps for i in range(n)]
    pv_v = [PV[i % len(PV)] + i // len(PV) for i in range(n)]
    if c['neg'] == 'pv':
        pv_v[1] = pv_v[4] = -0.5
    if c['pv_nan'] is not None:
        pv_v[c['pv_nan']] = NaN
    k = max(3, int(round(n * ps / ms)) + c['long'])
    m_t = [T0 + c['off'] * MIN + i * ms for i in range(k)]
    ex = [EX[i % len(EX)] for i in range(k)]
    poa = [POA[i % len(POA)] for i in range(k)]
    p_t = list(m_t)
    if c['pidx'] == 'shift':
        p_t = [u + ms // 5 for u in m_t]
    elif c['pidx'] == 'dense':
        p_t = [m_t[0] + i * (ms // 5) for i in range(5 * k)]
        poa = [POA[i * 5 % len(POA)] + i for i in range(5 * k)]
    if c['neg'] == 'poa':
        poa[1] = poa[-1] = -3.0
    elif c['neg'] == 'ex':
        ex[1] = ex[2] = -4.0
    elif c['neg'] == 'tiny':
        ex = [x * 1e-9 for x in ex]
    elif c['neg'] == 'huge':
        ex, pv_v, poa = [x * 1e9 for x in ex], [x * 1e6 for x in pv_v], [x * 20 for x in poa]
    for key, arr in (('ex_nan', ex), ('poa_nan', poa)):
        p = c[key]
        if p is not None:
            p = len(arr) - 1 if p == 'last' else p
            if p < len(arr):
                arr[p] = NaN
    if c['ex_zero'] is not None and c['ex_zero'] < k:
        ex[c['ex_zero']] = 0.0
    if c['m_drop'] is not None:
        if k < 6:
            raise Skip('short model')
        for arr in (m_t, ex, p_t, poa):
            del arr[c['m_drop']]
    if sum(not isnan(x) for x in ex) < 3 or sum(not isnan(x) for x in poa) < 3:
        raise Skip('too few model points')
    pv = pd.Series(pv_v, index=mk_index(pv_t, c['tz'], c['unit'], 'infer' if c['attach'] else None), name='pv')
    pe = pd.Series(ex, index=mk_index(m_t, c['tz'], c['unit'], 'infer' if c['mattach'] else None), name='pe')
    po = pd.Series(poa, index=mk_index(p_t, c['tz'], c['unit'], 'infer' if c['mattach'] else None))
    out, norm, ins = ref_normalize(pv_t, pv_v, ps, m_t, ex, p_t, poa, c['pv_input'])
    if c['pos'] and c['pv_input'] == 'power':
        got = normalize_with_expected_power(pv, pe, po)
    elif c['pos']:
        got = normalize_with_expected_power(pv, pe, po, c['pv_input'])
    else:
        got = normalize_with_expected_power(pv=pv, power_expected=pe, poa_global=po, pv_input=c['pv_input'])
    gn, gi = got
    expect_series(gn, out, norm, 'energy_normalized')
    expect_series(gi, out, ins, 'insolation')
    obs.model()
    obs.outcome = [[None if isnan(x) else round(x, 6) if math.isfinite(x) else 'inf' for x in norm][:20], ins[:20]]


def gen_pvw(tier):
    vals = [800.0, 0.0, None, 1200.0]

    def body(ch):
        return {'n': ch.choose('n', [6, 48]), 'neg': ch.choose('neg', [None, 'poa', 'cold', 'hot']), 'step': ch.free('step', [30, 15]), 'mstep': ch.free('mstep', [30, 10, 60]),
                'temp': ch.free('temp', ['none', 'series', 'scalar', 'nan', 'series_ref']),
                'gamma': ch.free('gamma', [None, -0.004, 0.0, 0.01]),
                'tref': ch.choose('tref', [None, 25, 20, 0]), 'pref': ch.choose('pref', [None, 1000, 800]),
                'rated': ch.choose('rated', [1000.0, 5, 0.5]),
                'nanp': ch.choose('nanp', [None, 1, 3]), 'nane': ch.choose('nane', [None, 2]),
                'tz': ch.choose('tz', [None, 'Asia/Kolkata'])}
    return body


def run_pvw(case, obs):
    from rdtools import normalize_with_pvwatts
    from rdtools.normalization import pvwatts_dc_power
    c = case
    n = c['n']
    e_t = [T0 + i * c['step'] * MIN for i in range(n)]
    e_v = [PV[i % len(PV)] * 10 for i in range(n)]
    if c['nane'] is not None:
        e_v[c['nane']] = NaN
    k = n * c['step'] // c['mstep'] + 1
    if k < 3:
        raise Skip()
    m_t = [T0 + i * c['mstep'] * MIN for i in range(k)]
    poa = [POA[i % len(POA)] for i in range(k)]
    if c['neg'] == 'poa':
        poa[2] = -6.0
    if c['nanp'] is not None and k > 5:
        poa[c['nanp']] = NaN
    mi = mk_index(m_t, c['tz'], freq='infer')
    P = pd.Series(poa, index=mi)
    temp = [20.0 + 7 * (i % 9) for i in range(k)]
    if c['neg'] in ('cold', 'hot'):
        temp = [x + {'cold': -75, 'hot': 400}[c['neg']] for x in temp]        # beyond any physical range: still the formula
    T = {'none': None, 'series': pd.Series(temp, index=mi), 'scalar': 45.0,
         'nan': pd.Series([NaN if i == 1 else x for i, x in enumerate(temp)], index=mi),
         'series_ref': pd.Series([25.0] * k, index=mi)}[c['temp']]
    tl = {'none': None, 'series': temp, 'scalar': [45.0] * k, 'nan': [NaN if i == 1 else x for i, x in enumerate(temp)],
          'series_ref': [25.0] * k}[c['temp']]
    kws = {'poa_global': P, 'power_dc_rated': c['rated']}
    if T is not None:
        kws['temperature_cell'] = T
    if c['gamma'] is not None:
        kws['gamma_pdc'] = c['gamma']
    if c['tref'] is not None:
        kws['temperature_cell_ref'] = c['tref']
    if c['pref'] is not None:
        kws['poa_global_ref'] = c['pref']
    tref = 25 if c['tref'] is None else c['tref']
    pref = 1000 if c['pref'] is None else c['pref']
    dc = []
    for i in range(k):
        x = c['rated'] * poa[i] / pref
        if tl is not None and c['gamma'] is not None:
            x *= 1 + c['gamma'] * (tl[i] - tref)
        dc.append(x)
    got = pvwatts_dc_power(**kws)
    expect_series(got, m_t, dc, 'pvwatts_dc_power')
    E = pd.Series(e_v, index=mk_index(e_t, c['tz'], freq='infer'))
    nv = sum(not isnan(x) for x in dc)
    if nv < 3:
        raise Skip()
    out, norm, ins = ref_normalize(e_t, e_v, c['step'] * MIN, m_t, dc, m_t, poa, 'energy')
    gn, gi = normalize_with_pvwatts(E, kws)
    expect_series(gn, out, norm, 'pvwatts energy_normalized')
    expect_series(gi, out, ins, 'pvwatts insolation')
    obs.model(2)
    obs.outcome = [norm[:12], dc[:12]]


def gen_err(tier):
    def body(ch):
        return {'what': ch.free('what', ['irregular', 'irregular_energy', 'bad', 'bad2', 'none', 'pvw_irregular', 'irreg_nanrow']),
                'tz': ch.free('tz', [None, 'UTC'])}
    return body


def run_err(case, obs):
    from rdtools import normalize_with_expected_power as f, normalize_with_pvwatts as g
    i = pd.date_range('2020-01-01', periods=8, freq='15min', tz=case['tz'])
    x = pd.Series(range(1, 9), index=i, dtype=float)
    irr = x.drop(i[3])
    w = case['what']
    if w == 'irregular':
        expect_raises(ValueError, lambda: f(irr, x, x), 'irregular pv')
    elif w == 'irregular_energy':
        expect_raises(ValueError, lambda: f(irr, x, x, pv_input='energy'), 'irregular pv')
    elif w == 'bad':
        expect_raises(ValueError, lambda: f(x, x, x, pv_input='Power'), 'bad pv_input')
    elif w == 'bad2':
        expect_raises(ValueError, lambda: f(x, x, x, pv_input=''), 'bad pv_input')
    elif w == 'none':
        expect_raises(ValueError, lambda: f(x, x, x, pv_input=None), 'bad pv_input')
    elif w == 'pvw_irregular':
        expect_raises(ValueError, lambda: g(irr, {'poa_global': x, 'power_dc_rated': 1}), 'irregular')
    else:
        j = i[:4].append(i[4:] + pd.Timedelta('3min'))
        expect_raises(ValueError, lambda: f(pd.Series(1.0, index=j), x, x), 'irregular')
    obs.model()
    obs.outcome = w


def families(tier):
    q = tier == 'quick'
    return [
        {'name': 'expected_power', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
        {'name': 'pvwatts', 'gen': gen_pvw(tier), 'run': run_pvw, 'bound': 2 if q else 4},
        {'name': 'errors', 'gen': gen_err(tier), 'run': run_err, 'bound': 0},
    ]
