"""Reference models: deliberately plain, pure-Python re-statements of the documented behaviour."""
import bisect
import math

import pandas as pd

from .lib import NaN, isnan, median, quantile


def interp(times, vals, targets, max_ns):
    """linear interpolation between bracketing valid points; NaN in gaps > max_ns and outside.
    times sorted unique ns, targets any order."""
    v = [(t, x) for t, x in zip(times, vals) if not isnan(x)]
    gaps = [b[0] - a[0] for a, b in zip(v, v[1:])]
    if max_ns is None:
        max_ns = 2 * median(gaps) if gaps else NaN
    out = []
    exact = dict(v)
    vt = [p[0] for p in v]
    for u in targets:
        if u in exact:
            out.append(exact[u])
            continue
        k = bisect.bisect_left(vt, u)
        prev = v[k - 1] if k else None
        nxt = v[k] if k < len(v) else None
        if prev is None or nxt is None:
            out.append(NaN)
            continue
        gap = nxt[0] - prev[0]
        if not gap <= max_ns:
            out.append(NaN)
        else:
            out.append(prev[1] + (nxt[1] - prev[1]) * ((u - prev[0]) / gap))
    return out, gaps, max_ns


def energy(times, vals, target_ns, max_ns, ptype, labels=None, grid=None):
    """Reference integral.  target_ns: fixed step or None.  labels/grid: explicit label instants
    (calendar frequencies).  Returns (label_ns, values)."""
    steps = [b - a for a, b in zip(times, times[1:])]
    med = median(steps)
    if target_ns is None and labels is None:
        target_ns = int(med)
    mx = med if max_ns is None else max_ns
    t0, tn = times[0], times[-1]
    src_t, src_v = list(times), list(vals)
    fine = (target_ns <= med)
    if fine:
        if grid is None:
            grid = list(range(t0, tn + 1, target_ns))
        src_v, _, _ = interp(times, vals, grid, mx)
        src_t = grid
        labels = grid[1:]
    elif labels is None:
        k = -(-(tn - t0) // target_ns)
        labels = [t0 + i * target_ns for i in range(1, k + 1)]
    valid = [(t, x) for t, x in zip(src_t, src_v) if not isnan(x)]
    out = []
    lo = t0
    for L in labels:
        # integrate over (lo, L]
        total, seen = 0.0, False
        for (a, x), (b, y) in zip(valid, valid[1:]):
            if b - a > mx:
                continue
            s, e = max(a, lo), min(b, L)
            if e <= s:
                continue
            seen = True
            h = (e - s) / 3.6e12
            if ptype == 'right_labeled':
                total += y * h
            else:
                f = lambda u: x + (y - x) * ((u - a) / (b - a))   # noqa
                total += (f(s) + f(e)) / 2 * h
        # an over-long step of the input index around the label
        nxt = [i for i, t in enumerate(times) if t >= L]
        if nxt and nxt[0] > 0 and steps[nxt[0] - 1] > mx:
            seen = False
        out.append(total if seen else NaN)
        lo = L
    return labels, out


# --------------------------------------------------------------------------- robust statistics
def robust_keep(xs, q):
    small = quantile([0.0 if isnan(x) else float(x) for x in xs], q) / 1000
    return [float(x) for x in xs if not isnan(x) and x > small]


def robust_quantile(xs, q):
    return quantile(robust_keep(xs, q), q)


def robust_median(xs, q=0.99):
    return median(robust_keep(xs, q))


def robust_mean(xs, q=0.99):
    k = robust_keep(xs, q)
    return sum(k) / len(k) if k else NaN


# --------------------------------------------------------------------------- outlier filters
def _window_vals(t, v, i, lo, hi, lo_closed=True, hi_closed=True):
    out = []
    for tj, vj in zip(t, v):
        if isnan(vj):
            continue
        if (tj > lo or (lo_closed and tj == lo)) and (tj < hi or (hi_closed and tj == hi)):
            out.append(vj)
    return out


def directional_medians(t, v, period, minp=5):
    """backward / forward rolling medians; period in ns, or an int number of rows ('rows', n)"""
    b, f = [], []
    n = len(t)
    for i in range(n):
        if isinstance(period, tuple):
            k = period[1]
            wb = [x for x in v[max(0, i - k):i + 1] if not isnan(x)]
            wf = [x for x in v[i:i + k + 1] if not isnan(x)]
        else:
            wb = _window_vals(t, v, i, t[i] - period, t[i])
            wf = _window_vals(t, v, i, t[i], t[i] + period)
        b.append(median(wb) if len(wb) >= minp else NaN)
        f.append(median(wf) if len(wf) >= minp else NaN)
    return b, f


def cmp3(a, b):
    """-1, 0, 1 for a<b, a==b, a>b; None when undecidable in floating point"""
    if isnan(a) or isnan(b):
        return None
    if a == b:
        return 0
    if abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)):
        return 'tie'
    return -1 if a < b else 1


def two_way_window(t, v, period, thr):
    q = quantile([x for x in v if not isnan(x)], 0.99)
    s = [NaN if isnan(x) else x / q for x in v]
    b, f = directional_medians(t, s, period)
    out = []
    for i in range(len(t)):
        db = 0.0 if isnan(s[i]) or isnan(b[i]) else abs(s[i] - b[i])
        df = 0.0 if isnan(s[i]) or isnan(f[i]) else abs(s[i] - f[i])
        c = cmp3(min(db, df), thr)
        out.append(None if c == 'tie' else c == -1)
    return out


def hampel(t, v, k, t0):
    n = len(t)

    def win(x, i):
        if isinstance(k, tuple):
            w = k[1]
            off = (w - 1) // 2
            end = i + 1 + off
            return [y for y in x[max(0, end - w):end] if not isnan(y)]
        return _window_vals(t, x, i, t[i] - k / 2, t[i] + k / 2, lo_closed=False)
    med = [median(win(v, i)) for i in range(n)]
    diff = [NaN if isnan(v[i]) or isnan(med[i]) else abs(med[i] - v[i]) for i in range(n)]
    mad = [median(win(diff, i)) for i in range(n)]
    out = []
    for i in range(n):
        if isnan(diff[i]):
            out.append(False)
            continue
        c = cmp3(diff[i], t0 * 1.4826 * mad[i])
        out.append(None if c == 'tie' else c in (-1, 0))
    return out


def tukey(t, v, period, k):
    b, f = directional_medians(t, v, period)
    res = []
    for m in (f, b):
        d = [NaN if isnan(x) or isnan(y) else x - y for x, y in zip(v, m)]
        ok = [x for x in d if not isnan(x)]
        p25, p75 = quantile(ok, 0.25), quantile(ok, 0.75)
        lo, hi = p25 - k * (p75 - p25), p75 + k * (p75 - p25)
        r = []
        for x in d:
            if isnan(x):
                r.append(False)
                continue
            a, c = cmp3(x, lo), cmp3(x, hi)
            if a == 'tie' or c == 'tie':
                r.append(None)
            else:
                r.append(a == 1 and c == -1)
        res.append(r)
    out = []
    for x, y in zip(*res):
        out.append(True if x is True or y is True else (None if x is None or y is None else False))
    return out


# --------------------------------------------------------------------------- year on year
def yoy(index, vals, recenter=True):
    """index: tz-aware/naive list of Timestamps sorted ascending.  Returns dict."""
    t = list(index)
    if recenter:
        lim = t[0] + pd.Timedelta(days=364)
        renorm = robust_median([v for u, v in zip(t, vals) if u <= lim])
    else:
        renorm = 1.0
    e = [NaN if isnan(v) else v / renorm for v in vals]
    shifted = [u + pd.DateOffset(years=1) for u in t]
    sh = [s.value for s in shifted]
    tv = [u.value for u in t]
    slopes = {}
    ends, starts = set(), set()
    tol = 8 * 86400 * 10**9
    import bisect
    order = sorted(range(len(t)), key=lambda i: (sh[i], tv[i]))
    keys = [sh[i] for i in order]
    for i in range(len(t)):
        # the start with the latest one-year anniversary not after t[i]
        k = bisect.bisect_right(keys, tv[i]) - 1
        if k < 0:
            continue
        k = order[k]
        if tv[i] - sh[k] > tol:
            continue
        if isnan(e[i]) or isnan(e[k]):
            continue
        years = (tv[i] - tv[k]) / (365 * 86400 * 10**9)
        slopes[i] = 100.0 * (e[i] - e[k]) / years
        ends.add(i)
        starts.add(k)
    return {'slopes': slopes, 'renorm': renorm, 'rate': median(list(slopes.values())),
            'usage': [int(i in ends) + int(i in starts) for i in range(len(t))],
            'dup_shift': [i for i in range(1, len(sh)) if sh[i] == sh[i - 1]]}


def two_years(index):
    """index: sorted DatetimeIndex"""
    f = index.inferred_freq
    step = pd.tseries.frequencies.to_offset(f) if f is not None else index.to_series().diff().median()
    return not (index[-1] < index[0] + pd.DateOffset(years=2) - step)
