"""Plain-Python reference of the availability analysis, from its documentation (power comparison and expected energy methods)."""
import math

from .lib import NaN, isnan, median, quantile, HOUR


class Tie(Exception):
    """the reference sits on a decision boundary that rounding may move"""


def near(a, b, rel=1e-7):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-9)


def subsystem(meter, sub, low, rel, limit):
    """meter: list; sub: {name: list}; low: None / float / {name: v}; rel: None / {name: v}; limit: None / list
    -> (online {name: [bool]}, loss list)"""
    names = list(sub)
    n = len(meter)
    s0 = {k: [0.0 if isnan(v) else v for v in sub[k]] for k in names}
    mt = [NaN if isnan(v) else max(v, 0.0) for v in meter]
    if low is None:
        low = {k: quantile(s0[k], 0.99) / 1000 for k in names}
    elif not isinstance(low, dict):
        low = {k: low for k in names}
    on = {k: [v > low[k] for v in s0[k]] for k in names}
    if rel is None:
        rel = {}
        for k in names:
            q = []
            for i in range(n):
                if on[k][i]:
                    vals = [s0[j][i] for j in names if on[j][i]]
                    q.append(s0[k][i] / (sum(vals) / len(vals)))
            rel[k] = median(q)
    tot = sum(rel[k] for k in names)
    frac = {k: rel[k] / tot for k in names}
    loss = []
    for i in range(n):
        up = [k for k in names if on[k][i]]
        down = [k for k in names if not on[k][i]]
        P = mt[i]
        if not up or not down or isnan(P):
            loss.append(0.0)
            continue
        full = sum(s0[k][i] / rel[k] for k in up) / len(up) * len(names)
        delta = 1 - P / full
        small = min(frac[k] for k in down)
        if near(delta, 0.75 * small, 1e-6):
            raise Tie()
        ls = 0.0
        if delta > 0.75 * small:
            f = min(max(P / full, sum(frac[k] for k in up)), 1.0)
            ls = (1 - f) / f * P
        if limit is not None and ls + P > limit[i]:
            ls = max(limit[i] - P, 0.0)
        loss.append(ls)
    return on, loss


def system(meter, cum, exp, on, sub_loss, dt_h, q):
    """-> dict(outages=[...], loss_system, corrected, scaled)"""
    n = len(meter)
    rows = [i for i in range(n) if sub_loss[i] == 0 and not isnan(meter[i]) and meter[i] > 0 and not isnan(exp[i]) and exp[i] > 0]
    scale = sum(exp[i] for i in rows) / sum(meter[i] for i in rows)
    sp = [e / scale for e in exp]
    se = [NaN] + [x * dt_h for x in sp[1:]]
    # energy_from_power: no value for intervals that touch a gap (C01)
    me = [NaN] + [NaN if isnan(meter[i - 1]) else meter[i] * dt_h for i in range(1, n)]
    lower = []
    for k in range(1, int(math.log2(len(rows)))):
        w = 2 ** k
        er = []
        for j in range(len(rows) - w + 1):
            a = sum(me[r] for r in rows[j:j + w])
            b = sum(se[r] for r in rows[j:j + w])
            if not isnan(a) and not isnan(b):
                er.append(a / b - 1)
        lower.append((w, quantile(er, q[0]), quantile(er, q[1])))

    def interp(m, c):
        xs = [x[0] for x in lower]
        ys = [x[c] for x in lower]
        if m <= xs[0]:
            return ys[0]
        if m >= xs[-1]:
            return ys[-1]
        for a in range(len(xs) - 1):
            if xs[a] <= m <= xs[a + 1]:
                return ys[a] + (ys[a + 1] - ys[a]) * (m - xs[a]) / (xs[a + 1] - xs[a])
    off = [not any(on[k][i] for k in on) for i in range(n)]
    day = [not isnan(e) and e > 0 for e in exp]
    full = []
    for i in range(n):
        prev = next((j for j in range(i, -1, -1) if day[j]), None)
        nxt = next((j for j in range(i, n) if day[j]), None)
        full.append(bool((prev is not None and off[prev]) or (nxt is not None and off[nxt])))
    outs = []
    i = 0
    while i < n:
        if full[i]:
            j = i
            while j + 1 < n and full[j + 1]:
                j += 1
            outs.append((i, j))
            i = j + 1
        else:
            i += 1
    if outs and outs[0] == (0, n - 1):
        raise Tie()
    res = []
    ls = [0.0] * n
    cor = list(cum)
    e0 = [0.0] + [x * dt_h for x in exp[1:]]
    for a, b in outs:
        dl = sum(1 for i in range(a, b + 1) if not isnan(sp[i]) and sp[i] > 0)
        E = sum(x for x in se[a:b + 1] if not isnan(x))
        st, en = cum[max(a - 1, 0)], cum[b]
        act = NaN if isnan(st) or isnan(en) else en - st
        if not isnan(act):
            if near(act, -0.05 * E):
                raise Tie()
            if act < -0.05 * E:
                act = NaN
        lo, hi = interp(dl, 1), interp(dl, 2)
        cl, cu = (1 + lo) * E, (1 + hi) * E
        if isnan(act):
            ty, loss = 'unknown', NaN
        else:
            if abs(act - cl) <= 1e-7 * max(abs(cl), 1.0):
                raise Tie()
            ty = 'real' if act < cl else 'comms'
            loss = E - act if ty == 'real' else 0.0
        tot = sum(x for x in e0[a:b + 1] if not isnan(x))
        if tot == 0:
            raise Tie()
        run = 0.0
        for i in range(a, b + 1):
            ls[i] += exp[i] * loss / tot
            run = run + e0[i]
            cor[i] = st + run * act / tot
        res.append(dict(a=a, b=b, intervals=b - a + 1, daylight_intervals=dl, error_lower=lo, error_upper=hi, energy_expected=E,
                        energy_start=st, energy_end=en, energy_actual=act, ci_lower=cl, ci_upper=cu, type=ty, loss=loss))
    return dict(outages=res, loss_system=ls, corrected=cor, scaled=sp, scaled_energy=se, full=full)


def rollup(labels, loss, cor, dt_h):
    """labels: period of each point -> {period: (lost, actual, availability)}"""
    out = {}
    per = []
    for p in labels:
        if p not in per:
            per.append(p)
    for p in per:
        ii = [i for i, q in enumerate(labels) if q == p]
        lost = sum(loss[i] * dt_h for i in ii if i > 0 and not isnan(loss[i]))
        cs = [cor[i] for i in ii if not isnan(cor[i])]
        act = cs[-1] - cs[0] if cs else NaN
        s = lost + act
        out[p] = (lost, act, NaN if isnan(s) or s == 0 else 1 - lost / s)
    return out
