"""C11 clipping filters against a reference of the documented rule."""
import math

import numpy as np
import pandas as pd

from mc import models, shapes
from mc.lib import *  # noqa

ASSUMPTIONS = [
    'verdicts within 1e-9 (relative) of a threshold are not compared unless the values are exactly equal',
    'the gradient-boosted model file and xgboost/pandas rolling arithmetic are trusted; features are recomputed',
    'sampling steps of whole minutes; local calendar days without a missing midnight',
]
KINDS = ['smooth', 'clip', 'lowclip', 'frozen', 'night', 'cloudy', 'noisyclip', 'slantclip', 'twolevel', 'nan', 'jag']


# --------------------------------------------------------------------------- reference: logic rule
def logic_ref(t, v, day, step_hint, mount, cutoff, roll):
    """t: minutes (int), v: values, day: local-day number of each row.  -> list of True/False/None(undecided)
    clipped flags.  day starts at local midnight = minute 0 of that day."""
    n = len(t)
    diffs = [b - a for a, b in zip(t, t[1:])]
    cnt = {}
    for d in diffs:
        cnt[d] = cnt.get(d, 0) + 1
    mx = max(cnt.values())
    step = min(d for d in cnt if cnt[d] == mx)
    # first of duplicates
    ut, uv, ud = [], [], []
    for a, b, c in zip(t, v, day):
        if ut and ut[-1] == a:
            continue
        ut.append(a), uv.append(b), ud.append(c)
    und = [False] * len(ut)
    clean = list(uv)
    for d in set(ud):
        xs = [x for x, q in zip(uv, ud) if q == d and not isnan(x)]
        if len(xs) < 2:
            continue
        m = sum(xs) / len(xs)
        if m == 0:
            continue
        sd = math.sqrt(sum((x - m) ** 2 for x in xs) / (len(xs) - 1))
        if abs(sd / m - 0.1) < 1e-9:
            raise Skip('frozen-day criterion undecided')
        if sd / m < 0.1:
            clean = [NaN if q == d else x for x, q in zip(clean, ud)]
    # regular grid
    if step >= 10:
        grid = list(range(ut[0], ut[-1] + 1, step))
        # gap limit: twice the median gap of valid points
        vt = [a for a, x in zip(ut, clean) if not isnan(x)]
        if len(vt) < 2:
            return [False] * n
        gv, _, _ = models.interp(ut, clean, grid, 2 * median([b - a for a, b in zip(vt, vt[1:])]))
        gstep = step
    else:
        lo = ut[0] // 15 * 15
        grid = list(range(lo, ut[-1] + 1, 15))
        bins = {}
        for a, x in zip(ut, clean):
            if not isnan(x):
                bins.setdefault(a // 15 * 15, []).append(x)
        gv = [median(bins[g]) if g in bins else NaN for g in grid]
        gstep = 15
    if roll is None:
        roll = 5 if mount == 'single_axis_tracking' and gstep < 30 else 3
    gd = [day_of(g, t, day) for g in grid]
    dm = {}
    for d, x in zip(gd, gv):
        if not isnan(x):
            dm[d] = max(dm.get(d, -math.inf), x)
    for i, x in enumerate(gv):
        if not isnan(x):
            th = 0.1 * dm[gd[i]]
            if x != 0 and abs(x - th) < 1e-9 * abs(th):
                raise Skip('ten percent undecided')
            if x < th:
                gv[i] = NaN
    m = len(grid)
    flat = [False] * m
    for i in range(m - roll + 1):
        w = gv[i:i + roll]
        if any(isnan(x) for x in w):
            continue
        a, b = max(w), min(w)
        if a + b == 0:
            continue
        r = (a - b) / ((a + b) / 2) * 100
        if abs(r - cutoff) < 1e-9 * cutoff:
            raise Skip('cutoff undecided')
        flat[i] = r < cutoff
    near = [i >= roll - 1 and any(flat[max(0, i - roll + 1):i + 1]) for i in range(m)]
    # back to the original rows
    clip = []
    for a in t:
        k = (a - grid[0]) // (grid[1] - grid[0]) if m > 1 else 0
        clip.append(near[min(k, m - 1)])
    lev = {}
    for d in set(day):
        rows = [x if c else NaN for x, c, q in zip(v, clip, day) if q == d]
        xs = [x for x in rows if not isnan(x)]
        if not xs:
            continue
        if step < 10:
            lev[d] = (models.robust_quantile(rows, 0.075), models.robust_quantile(rows, 0.99))
        else:
            lev[d] = (min(xs), max(xs))
    out = []
    for x, d in zip(v, day):
        if isnan(x) or d not in lev or isnan(lev[d][0]) or isnan(lev[d][1]):
            out.append(False)
            continue
        a, b = lev[d]
        diff = (b - a) / b if b != 0 else NaN
        if isnan(diff):
            out.append(False)
            continue
        if abs(diff - 0.025) < 1e-9:
            out.append(None)
            continue
        if diff <= 0.025:
            if (x != a and abs(x - a) < 1e-9 * abs(a)) or (x != b and abs(x - b) < 1e-9 * abs(b)):
                out.append(None)
            else:
                out.append(a <= x <= b)
        else:
            r = False
            for L in (a, b):
                if min(abs(x - L * 1.0025), abs(x - L * 0.9975)) < 1e-9 * abs(L):
                    r = None
                elif L * 0.9975 <= x <= L * 1.0025:
                    r = True
            out.append(r)
    if None in out:
        raise Skip('undecided level')
    # overall level
    cl = [x for x, f in zip(v, out) if f]
    cm = dict(zip(ut, clean))
    full = [cm[a] for a in t]
    qp = models.robust_quantile(full, 0.99)
    qc = models.robust_quantile(cl, 0.99) if cl else NaN
    if isnan(qp) or isnan(qc):
        return out
    pd_ = abs((qp - qc) / ((qp + qc) / 2))
    pc = len(cl) / n * 100
    if abs(pd_ - 0.005) < 1e-9 or abs(pc - 4) < 1e-9:
        raise Skip('overall level undecided')
    if pd_ < 0.005 and pc > 4:
        for i, x in enumerate(full):
            if isnan(x):
                continue
            if x != qp and abs(x - qp) < 1e-9 * qp:
                if not out[i]:
                    out[i] = None
            elif x >= qp:
                out[i] = True
    return out


def day_of(g, t, day):
    # local day of a grid minute: same offset as the nearest earlier row
    import bisect
    k = max(0, bisect.bisect_right(t, g) - 1)
    return day[k] if True else None


def gen(tier):
    def body(ch):
        step = ch.free('step', [15, 60, 30, 5, 10] + ([1, 7, 20] if tier != 'quick' else []))
        return {'step': step,
                'days': [ch.choose('d%d' % i, KINDS[1:] + KINDS[:1] if i == 0 else KINDS) for i in range(3)],
                'mount': ch.free('mount', ['fixed', 'single_axis_tracking']),
                'cutoff': ch.choose('cutoff', [0.2, 2.0, 0.01]),
                'roll': ch.choose('roll', [None, 2, 4, 6]),
                'tz': ch.choose('tz', ['Etc/GMT+5', None, 'US/Eastern']),
                'hole': ch.choose('hole', [None, [44, 2, 'M'], [44, 2, 'N'], [47, 8, 'M'], [40, 20, 'N'], [48, 1, 'D'], [52, 1, 'D2'],
                                           [44, 4, 'S'], [90, 12, 'M']]),
                'hole2': ch.choose('hole2', [None, [50, 2, 'N'], [54, 3, 'M'], [20, 1, 'D']]),
                'scale': ch.choose('scale', [1000.0, 1.0, 2.0 ** 20, 3.7]),
                'name': ch.choose('name', [None, ['value', 'value'], ['daily_std', 'x'], ['p', 'index']]),
                'off': ch.choose('off', [0, 7 * 60 + 5, 12 * 60])}
    return body


def build(c, tzname):
    step = c['step']
    s = shapes.day(c['days'], step, tz=None, scale=c['scale'])
    rows = [[int(a.value // MIN), b] for a, b in zip(s.index, s.to_numpy())]
    base = pd.Timestamp('2020-06-01').value // MIN
    for h in (c['hole'], c['hole2']):
        if not h:
            continue
        # positions are in quarter hours of the first day
        lo = base + h[0] * 15
        hi = lo + max(h[1] * 15, step)
        sel = [i for i, r in enumerate(rows) if lo <= r[0] < hi]
        if h[2] == 'M':
            rows = [r for i, r in enumerate(rows) if i not in sel]
        elif h[2] == 'N':
            for i in sel:
                rows[i][1] = NaN
        elif h[2] == 'S':      # shift timestamps off the grid
            for i in sel:
                rows[i][0] += max(1, step // 3)
        elif h[2] in ('D', 'D2') and sel:
            r = list(rows[sel[0]])
            if h[2] == 'D2':
                r[1] = r[1] * 0.5
            rows.insert(sel[0] + 1, r)
    rows = [r for r in rows if r[0] >= base + c['off']]
    loc = pd.to_datetime([r[0] * MIN for r in rows])
    idx = loc if tzname is None else loc.tz_localize(tzname)
    t = [r[0] for r in rows]
    day = [r[0] // 1440 for r in rows]
    return pd.Series([r[1] for r in rows], index=pd.DatetimeIndex(idx)), t, [r[1] for r in rows], day


def run(case, obs):
    from rdtools import filtering
    c = case
    s, t, v, day = build(c, c['tz'])
    if c['name']:
        s.name = c['name'][0]
        s.index.name = c['name'][1]
    if all(isnan(x) for x in v):
        raise Skip()
    exp = logic_ref(t, v, day, c['step'], c['mount'], c['cutoff'], c['roll'])
    kw = {}
    if c['mount'] != 'fixed':
        kw['mounting_type'] = c['mount']
    if c['cutoff'] != 0.2:
        kw['rolling_range_max_cutoff'] = c['cutoff']
    if c['roll'] is not None:
        kw['roll_periods'] = c['roll']
    got = filtering.logic_clip_filter(s, **kw)
    check(got.dtype == bool, 'mask dtype %s', got.dtype)
    check(len(got) == len(s) and (got.index == s.index).all(), 'mask index differs from the input')
    g = [not bool(x) for x in got.to_numpy()]
    bad = [(str(s.index[i]), v[i], g[i], exp[i]) for i in range(len(g)) if exp[i] is not None and g[i] != exp[i]]
    check(not bad, 'logic rule: (time, value, flagged, expected) %s ...(%d)', bad[:5], len(bad))
    obs.model()
    obs.outcome = [sum(bool(x) for x in exp), len(exp)]


# --------------------------------------------------------------------------- xgboost
_MODEL = None


def xgb_model():
    global _MODEL
    if _MODEL is None:
        import os
        import xgboost as xgb
        import rdtools
        _MODEL = xgb.XGBClassifier()
        _MODEL.load_model(os.path.join(os.path.dirname(rdtools.__file__), 'models', 'xgboost_clipping_model.json'))
    return _MODEL


def features(x, f):
    """x: Series (value) on its index"""
    sc = (x - x.min()) / (x.max() - x.min())
    w = 5 if f < 10 else 3 if f < 60 else 2
    d = pd.DataFrame(index=x.index)
    av = sc.rolling(w, center=True).mean()
    b = sc.diff()
    d['first_order_derivative_backward'] = b
    d['first_order_derivative_forward'] = sc.shift(-1).diff()
    d['first_order_derivative_backward_rolling_avg'] = av.diff()
    d['first_order_derivative_forward_rolling_avg'] = av.shift(-1).diff()
    d['scaled_value'] = sc
    d['rolling_average'] = av
    date = np.array([z.date() for z in x.index])
    dmx = {q: sc[date == q].max() for q in set(date)}
    d['daily_max'] = [dmx[q] for q in date]
    d['percent_daily_max'] = sc / (d['daily_max'] + 0.00001)
    vals = sc.to_numpy()
    rng = []
    for i in range(len(vals)):
        u = vals[i:i + w]
        if len(u) < w or np.isnan(u).any():
            rng.append(np.nan)
        else:
            with np.errstate(all='ignore'):
                rng.append((u.max() - u.min()) / ((u.max() + u.min()) / 2) * 100)
    d['deriv_max'] = rng
    r = b.rolling(w, center=True)
    d['deriv_backward_rolling_stdev'] = r.std()
    d['deriv_backward_rolling_mean'] = r.mean()
    d['deriv_backward_rolling_median'] = r.median()
    d['deriv_backward_rolling_min'] = r.min()
    d['deriv_backward_rolling_max'] = r.max()
    return d


COLS = ["first_order_derivative_backward", "first_order_derivative_forward", "first_order_derivative_backward_rolling_avg",
        "first_order_derivative_forward_rolling_avg", "sampling_frequency", "mounting_config_bool", "scaled_value",
        "rolling_average", "daily_max", "percent_daily_max", "deriv_max", "deriv_backward_rolling_stdev",
        "deriv_backward_rolling_mean", "deriv_backward_rolling_median", "deriv_backward_rolling_min", "deriv_backward_rolling_max"]


def xgb_ref(s, mount):
    from rdtools import normalization
    t = ns_of(s.index)
    d = [(b - a) // MIN for a, b in zip(t, t[1:])]
    cnt = {k: d.count(k) for k in set(d)}
    f = min(k for k in cnt if cnt[k] == max(cnt.values()))
    x = normalization.interpolate(s, '%dmin' % f)       # decided by C02
    ff = f
    if f < 5:
        x = x.resample('5min').mean()
        ff = 5
    feat = features(x, f)
    feat['sampling_frequency'] = ff
    feat['mounting_config_bool'] = 1.0 if mount == 'single_axis_tracking' else 0.0
    feat = feat[COLS].dropna()
    pred = pd.Series(xgb_model().predict(feat).astype(bool), index=feat.index)
    pt = ns_of(pred.index)
    import bisect
    flag = []
    for a in t:
        k = bisect.bisect_right(pt, a) - 1
        flag.append(bool(pred.iloc[k]) if k >= 0 else False)
    o = features(s, f)
    sv, pdm = o['scaled_value'].to_numpy(), o['percent_daily_max'].to_numpy()
    date = [z.date() for z in s.index]
    out = []
    for i in range(len(s)):
        w = [sv[j] for j in range(len(s)) if date[j] == date[i] and flag[j] and not math.isnan(sv[j])]
        if not w or math.isnan(sv[i]):
            out.append(False)
            continue
        lo, hi = min(w), max(w)
        if f < 5:
            out.append(bool(max(lo, hi * 0.96) <= sv[i] <= hi * 1.0025 and pdm[i] >= 0.9 and sv[i] >= 0.1))
        else:
            out.append(bool(lo <= sv[i] <= hi * 1.0025 and pdm[i] >= 0.95 and sv[i] >= 0.1))
    return out, sv, pdm, f


def gen_x(tier):
    def body(ch):
        return {'step': ch.free('step', [15, 60, 30, 5, 3] + ([1, 10] if tier != 'quick' else [])),
                'days': [ch.choose('d%d' % i, KINDS[1:] + KINDS[:1] if i == 0 else KINDS) for i in range(2)],
                'mount': ch.free('mount', ['fixed', 'single_axis_tracking']),
                'tz': ch.choose('tz', ['Etc/GMT+5', None, 'US/Eastern']),
                'hole': ch.choose('hole', [None, [44, 2, 'M'], [44, 2, 'N'], [47, 8, 'M'], [40, 20, 'N'], [44, 4, 'S'], [88, 12, 'M']]),
                'hole2': None,
                'scale': ch.choose('scale', [1000.0, 1.0, 3.7]),
                'name': ch.choose('name', [None, ['value', 'value'], ['date', 'x'], ['p', 'index']]),
                'off': ch.choose('off', [0, 7 * 60 + 5, 12 * 60])}
    return body


def run_x(case, obs):
    from rdtools import filtering
    c = case
    s, t, v, day = build(c, c['tz'])
    xs = [x for x in v if not isnan(x)]
    if len(xs) < 12 or max(xs) == min(xs):
        raise Skip('no variation')
    if c['name']:
        s.name, s.index.name = c['name']
    got = filtering.xgboost_clip_filter(s, c['mount']) if c['mount'] != 'fixed' else filtering.xgboost_clip_filter(s)
    check(got.dtype == bool, 'mask dtype %s', got.dtype)
    check(len(got) == len(s) and (got.index == s.index).all(), 'mask index differs from the input')
    exp, sv, pdm, f = xgb_ref(s.rename('value').rename_axis('datetime'), c['mount'])
    g = [not bool(x) for x in got.to_numpy()]
    for i, x in enumerate(g):
        if x:
            check(sv[i] >= 0.1 and pdm[i] >= (0.9 if f < 5 else 0.95) and not isnan(v[i]),
                  'excluded point %s value %s: scaled %s, of daily max %s', s.index[i], v[i], sv[i], pdm[i])
    bad = [(str(s.index[i]), v[i], g[i], exp[i]) for i in range(len(g)) if g[i] != exp[i]]
    check(not bad, 'xgboost: (time, value, flagged, expected) %s ...(%d)', bad[:5], len(bad))
    # other units, other names: same verdict
    for k in (2.0 ** -8, 2.0 ** 10):
        o = filtering.xgboost_clip_filter((s * k).rename('other'), c['mount'])
        check((o.to_numpy() == got.to_numpy()).all(), 'verdict changes when the series is multiplied by %s', k)
    obs.model()
    obs.outcome = [sum(exp), len(exp)]


# --------------------------------------------------------------------------- rejected inputs
def gen_bad(tier):
    def body(ch):
        return {'what': ch.free('w', ['range', 'unsorted', 'mount', 'mount2', 'short10', 'short1', 'ok11', 'model', 'dispatch']),
                'f': ch.free('f', ['logic', 'xgboost']), 'tz': ch.free('tz', [None, 'UTC']),
                'step': ch.free('step', [15, 5, 60])}
    return body


def run_bad(case, obs):
    from rdtools import filtering
    c = case
    f = getattr(filtering, c['f'] + '_clip_filter')
    s = shapes.day(['clip', 'smooth'], c['step'], tz=c['tz'])
    w = c['what']
    if w == 'range':
        expect_raises(TypeError, lambda: f(s.reset_index(drop=True)), w)
    elif w == 'unsorted':
        for k in (1, len(s) // 2):
            u = pd.concat([s.iloc[k:], s.iloc[:k]])
            expect_raises(IndexError, lambda: f(u), w)
        expect_raises(IndexError, lambda: f(s.iloc[::-1]), w)
    elif w == 'mount':
        expect_raises(ValueError, lambda: f(s, 'tracker'), w)
    elif w == 'mount2':
        expect_raises(ValueError, lambda: f(s, mounting_type=None), w)
    elif w == 'short10':
        expect_raises(Exception, lambda: f(s.iloc[40:50]), w)
    elif w == 'short1':
        expect_raises(Exception, lambda: f(s.iloc[10:11]), w)
    elif w == 'ok11':
        x = s.iloc[20:31]
        if x.max() == x.min():
            raise Skip()
        r = f(x)
        check(len(r) == 11 and r.dtype == bool, 'eleven readings')
    elif w == 'model':
        expect_raises(ValueError, lambda: filtering.clip_filter(s, c['f'] + '1'), w)
        expect_raises(ValueError, lambda: filtering.clip_filter(s, model=None), w)
    elif w == 'dispatch':
        a, b = filtering.clip_filter(s, model=c['f']), f(s)
        check((a == b).all(), 'clip_filter(model=%s) differs from the filter itself', c['f'])
        a, b = filtering.clip_filter(s, model=c['f'], mounting_type='single_axis_tracking'), f(s, 'single_axis_tracking')
        check((a == b).all(), 'clip_filter(model=%s) does not pass mounting_type', c['f'])
        if c['f'] == 'logic':
            a = filtering.clip_filter(s)
            check((a == f(s)).all(), 'default model is not logic')
    obs.model()
    obs.outcome = w


def families(tier):
    q = tier == 'quick'
    return [{'name': 'logic', 'gen': gen(tier), 'run': run, 'bound': 2 if q else 3},
            {'name': 'xgboost', 'gen': gen_x(tier), 'run': run_x, 'bound': 1 if q else 2},
            {'name': 'bad', 'gen': gen_bad(tier), 'run': run_bad, 'bound': 0}]
