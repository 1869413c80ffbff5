"""C24 availability: subsystem losses and availability."""
import itertools

import numpy as np
import pandas as pd

from mc import avail
from mc.lib import *  # noqa

ASSUMPTIONS = ['regular time index without missing rows (documented requirement), energy in power x hours',
               'relative sizes normalised by their mean (documented)', 'decisions within rounding of a threshold are not judged']
STEP = 2
SLOTS = [6, 8, 10, 12, 14, 16]     # local hours with production (right labels)


def base(days, n_sub, sizes, start='2019-03-30', tz=None, freq=True, step=STEP):
    i = pd.date_range(start, periods=days * 24 // step, freq='%dh' % step, tz=tz)
    h = np.array([t.hour for t in i])
    d = np.arange(len(i)) * step // 24
    p = np.clip(np.sin((h - 4) / 14 * np.pi), 0, None) * ((h > 4) & (h < 18)) * (1 + 0.07 * np.sin(d * 3 + h)) * 100
    names = ['inv%d' % k for k in range(n_sub)]
    sub = {nm: p * s * (1 + 0.01 * np.sin(k * 5 + h + d)) for k, (nm, s) in enumerate(zip(names, sizes))}
    exp = p * sum(sizes) * 1.25 * (1 + 0.03 * np.cos(h * 1.7 + d))
    if not freq:
        i = pd.DatetimeIndex(list(i))
    return i, sub, exp


CELL = ['on', 'down', 'down_nan', 'down_neg', 'down_tiny', 'comms', 'comms_nan', 'half', 'third', 'almost', 'low_on']


def gen(tier):
    q = tier == 'quick'

    def body(ch):
        n = ch.free('n', [2, 3] if q else [1, 2, 3, 4])
        c = {'n': n, 'sizes': ch.choose('sizes', [0, 1, 2]), 'cells': []}
        for slot in range(2 if q else 3):
            for k in range(n):
                c['cells'].append(ch.choose('c%d%d' % (slot, k), CELL if slot == 0 or not q else CELL[:2] + CELL[5:6]))
        c['len'] = ch.choose('len', [1, 3, 6, 12])
        c['low'] = ch.choose('low', ['none', 'zero', 'scalar', 'big', 'series', 'permuted'])
        c['rel'] = ch.choose('rel', ['none', 'dict', 'series', 'dict_permuted'])
        c['limit'] = ch.choose('limit', ['none', 'low', 'mid', 'high', 'series'])
        c['meter'] = ch.choose('meter', ['sum', 'loss2pct', 'nan', 'neg_night', 'neg_day', 'gain'])
        c['roll'] = ch.choose('roll', ['D', 'ME', '2D', 'W'])
        c['tz'] = ch.choose('tz', [None, 'America/Denver', 'Asia/Kolkata'])
        c['freq'] = ch.choose('freq', [True, False])
        return c
    return body


SIZES = {1: [[1.0]], 2: [[1.0, 1.0], [1.0, 3.0], [0.4, 1.6]], 3: [[1.0, 1.0, 1.0], [0.5, 1.0, 1.5], [1.0, 4.0, 1.0]],
         4: [[1.0] * 4, [1.0, 2.0, 3.0, 4.0], [0.1, 1.0, 1.0, 5.0]]}


def build(c):
    """-> times, meter, sub, cum, exp"""
    n = c['n']
    sizes = SIZES[n][min(c['sizes'], len(SIZES[n]) - 1)]
    i, sub, exp = base(4, n, sizes, tz=c['tz'], freq=c['freq'])
    true = {k: v.copy() for k, v in sub.items()}
    shown = {k: v.copy() for k, v in sub.items()}
    names = list(sub)
    day = 24 // STEP
    anchors = [day + 5, 2 * day + 3, 2 * day + 9]
    for slot in range(len(c['cells']) // n):
        for k in range(n):
            st = c['cells'][slot * n + k]
            if st == 'on':
                continue
            a = anchors[slot]
            sl = slice(a, min(a + c['len'], len(i)))
            nm = names[k]
            if st in ('down', 'down_nan', 'down_neg', 'down_tiny'):
                true[nm][sl] = 0.0
                shown[nm][sl] = {'down': 0.0, 'down_nan': np.nan, 'down_neg': -0.01, 'down_tiny': 0.0008 * sub[nm].max()}[st]
            elif st in ('comms', 'comms_nan'):
                shown[nm][sl] = 0.0 if st == 'comms' else np.nan
            else:
                f = {'half': 0.5, 'third': 0.33, 'almost': 0.97, 'low_on': 0.0013}[st]
                true[nm][sl] *= f
                shown[nm][sl] *= f
    m = sum(true.values())
    if c['meter'] == 'loss2pct':
        m = m * 0.98
    elif c['meter'] == 'gain':
        m = m * 1.03
    cum = np.cumsum(m) * STEP
    meter = m.copy()
    if c['meter'] == 'nan':
        meter[day + 6] = np.nan
        meter[2 * day + 4] = np.nan
    elif c['meter'] == 'neg_night':
        meter = np.where(m == 0, -0.5, m)
        cum = np.cumsum(meter) * STEP
    elif c['meter'] == 'neg_day':
        for a in anchors:
            meter[a] = -1.0
    return i, meter, shown, cum, exp, sizes


def run(case, obs):
    from rdtools import AvailabilityAnalysis
    c = case
    i, meter, sub, cum, exp, sizes = build(c)
    names = list(sub)
    n = c['n']
    low = {'none': None, 'zero': 0.0, 'scalar': 1.0, 'big': 45.0, 'series': {k: 0.5 * (j + 1) for j, k in enumerate(names)},
           'permuted': {k: 0.5 * (j + 1) for j, k in reversed(list(enumerate(names)))}}[c['low']]
    mean = sum(sizes) / n
    rel = None if c['rel'] == 'none' else {k: s / mean for k, s in zip(names, sizes)}
    if c['rel'] == 'dict_permuted':
        rel = dict(reversed(list(rel.items())))
    peak = float(np.nanmax(meter))
    limit = {'none': None, 'low': 0.4 * peak, 'mid': 0.85 * peak, 'high': 3 * peak,
             'series': [peak * (0.5 + 0.1 * (j % 7)) for j in range(len(i))]}[c['limit']]
    lim = None if limit is None else (limit if isinstance(limit, list) else [limit] * len(i))
    try:
        on, loss = avail.subsystem(list(meter), {k: list(v) for k, v in sub.items()}, low, rel, lim)
        sysr = avail.system(list(meter), list(cum), list(exp), on, loss, STEP, (0.01, 0.99))
    except avail.Tie:
        raise Skip('on a threshold')

    def go(order, scale):
        P = pd.Series(meter * scale, index=i)
        S = pd.DataFrame({k: sub[k] * scale for k in order}, index=i)
        C = pd.Series(cum * scale, index=i)
        E = pd.Series(exp * scale, index=i)
        lw = low
        if isinstance(low, dict):
            lw = pd.Series(low) * scale
        elif low is not None:
            lw = low * scale
        r = rel if c['rel'] != 'series' else pd.Series(rel)
        L = None if limit is None else (pd.Series(limit, index=i) * scale if isinstance(limit, list) else limit * scale)
        before = [snap(x) for x in (P, S, C, E, lw, r, L)]
        a = AvailabilityAnalysis(P, S, C, E)
        a.run(low_threshold=lw, relative_sizes=r, power_system_limit=L, rollup_period=c['roll'])
        check([snap(x) for x in (P, S, C, E, lw, r, L)] == before, 'inputs modified')
        return a
    a = go(names, 1.0)
    for k in names:
        g = [bool(x) for x in a.reporting_mask[k]]
        check(g == on[k], 'reporting mask of %s: %s', k, [(str(i[j]), g[j], on[k][j]) for j in range(len(g)) if g[j] != on[k][j]][:3])
    ns = ns_of(i)
    g = a.loss_subsystem.to_numpy(float)
    check(not np.isnan(g).any() and (g >= 0).all(), 'negative or missing subsystem loss')
    allon = np.array([all(on[k][j] for k in names) for j in range(len(i))])
    check((g[allon] == 0).all(), 'loss although all subsystems report')
    if lim is not None:
        over = [j for j in range(len(i)) if g[j] > 0 and g[j] + max(meter[j], 0) > lim[j] * (1 + 1e-9)]
        check(not over, 'loss plus power above the system limit')
    expect_series(a.loss_subsystem, ns, loss, 'loss_subsystem', rtol=1e-7, atol=1e-7)
    tot = [x + y for x, y in zip(loss, sysr['loss_system'])]
    expect_series(a.loss_total, ns, tot, 'loss_total', rtol=1e-6, atol=1e-6)
    check(same_values(a.loss_total, a.loss_system + a.loss_subsystem), 'total is not the sum of system and subsystem losses')
    res = a.results
    check(list(res.columns) == ['lost_production', 'actual_production', 'availability'], 'columns %s', list(res.columns))
    if c['roll'] in ('D', 'ME'):
        lab = [(t.year, t.month, t.day if c['roll'] == 'D' else 0) for t in i]
        ref = avail.rollup(lab, tot, sysr['corrected'], STEP)
        check(len(res) == len(ref), 'periods %d expected %d', len(res), len(ref))
        for (p, (lo, ac, av)), (t, row) in zip(ref.items(), res.iterrows()):
            check((t.year, t.month, t.day if c['roll'] == 'D' else 0) == p, 'period label %s for %s', t, p)
            for nm, v in (('lost_production', lo), ('actual_production', ac), ('availability', av)):
                check(same_float(row[nm], v, 1e-6, 1e-6), '%s in %s: %s expected %s', nm, p, row[nm], v)
    av = res['availability'].dropna()
    check(((av >= -1e-9) & (av <= 1 + 1e-9)).all(), 'availability outside [0, 1]: %s', list(av))
    s = res['lost_production'] + res['actual_production']
    check(same_values(res['availability'].where(s != 0), (1 - res['lost_production'] / s).where(s != 0)), 'availability is not 1 - loss/(loss + production)')
    # scaling all quantities and reordering the subsystems change nothing
    if c['tz'] is not None:
        obs.model()
        obs.outcome = 'tz'
        return
    b = go(names[::-1], 1000.0)
    check(same_values(b.loss_subsystem / 1000, a.loss_subsystem, 1e-7, 1e-9), 'subsystem loss depends on column order or scale')
    check(same_values(b.results['availability'], a.results['availability'], 1e-7, 1e-9), 'availability depends on column order or scale')
    obs.model()
    obs.outcome = [round(float(sum(loss)), 4), round(float(np.nansum(tot)), 3)]


# ---- index mismatch
def gen_idx(tier):
    def body(ch):
        return {'which': ch.free('w', ['sub', 'cum', 'exp', 'none']), 'how': ch.free('h', ['shift', 'short', 'tz', 'order', 'long'])}
    return body


def run_idx(case, obs):
    from rdtools import AvailabilityAnalysis
    i, sub, exp = base(3, 2, [1.0, 1.0])
    P = pd.Series(sum(sub.values()), index=i)
    d = {'sub': pd.DataFrame(sub, index=i), 'cum': P.cumsum() * STEP, 'exp': pd.Series(exp, index=i)}
    w, h = case['which'], case['how']
    if w != 'none':
        x = d[w]
        if h == 'shift':
            x = x.set_axis(x.index + pd.Timedelta('1h'))
        elif h == 'short':
            x = x.iloc[:-1]
        elif h == 'tz':
            x = x.tz_localize('UTC')
        elif h == 'order':
            x = x.iloc[::-1]
        else:
            x = pd.concat([x, x.iloc[-1:].set_axis(x.index[-1:] + pd.Timedelta('2h'))])
        d[w] = x
        expect_raises(ValueError, lambda: AvailabilityAnalysis(P, d['sub'], d['cum'], d['exp']), 'mismatched index of %s (%s)' % (w, h))
    else:
        AvailabilityAnalysis(P, d['sub'], d['cum'], d['exp']).run()
    obs.model()
    obs.outcome = [w, h]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'subsystems', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'index', 'gen': gen_idx(tier), 'run': run_idx, 'bound': 0}]
