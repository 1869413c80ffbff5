"""C28 plots: the artists of the returned figure hold exactly the supplied results."""
import math

import numpy as np
import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = ['matplotlib and plotly render the artist data they hold', 'the names "mask" for a signal or an index, and equal names of signal and index, '
               'are not used with tune_filter_plot', 'slopes handed to the degradation plots have no NaN and sorted times (as degradation_year_on_year returns them)']

_N = [((k * 7919 + 13) % 101) / 101.0 - 0.5 for k in range(4000)]


def plt_():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    return plt


def num_times(index):
    """matplotlib date numbers (days since 1970, UTC)"""
    return np.array([x / DAY for x in ns_of(index.tz_convert('UTC') if index.tz is not None else index)])


def line(l):
    return np.asarray(l.get_xdata(orig=False), float), np.asarray(np.ma.filled(np.ma.asarray(l.get_ydata(orig=False), float), np.nan), float)


def same_line(l, x, y):
    a, b = line(l)
    return len(a) == len(x) and same_values(a, x, 1e-12, 1e-7) and same_values(b, y, 1e-9)


def take(lines, x, y, what):
    for l in lines:
        if same_line(l, x, y):
            lines.remove(l)
            return l
    got = [(len(line(l)[0]), line(l)[1][:5].round(5).tolist()) for l in lines[:5]]
    fail('%s: no line with the %d expected points (first values %s); remaining lines: %s', what, len(x), np.asarray(y[:5], float).round(5).tolist(), got)


def drop_nan(x, y):
    k = ~np.isnan(y)
    return x[k], y[k]


def color(c):
    from matplotlib.colors import to_rgba
    return tuple(round(float(v), 6) for v in to_rgba(c))


def hist(ax, values, bins, what):
    from matplotlib.patches import Rectangle
    pat = [p for p in ax.patches if isinstance(p, Rectangle)]
    e_n, e_edges = np.histogram(np.asarray(values, float), bins=bins)
    got = sorted((round(p.get_x(), 12), p.get_width(), p.get_height()) for p in pat)
    check(sum(g[2] for g in got) == len(values), '%s: histogram holds %s values of %s', what, sum(g[2] for g in got), len(values))
    check(len(got) == len(e_n), '%s: %s bins, expected %s', what, len(got), len(e_n))
    for g, n, a, b in zip(got, e_n, e_edges[:-1], e_edges[1:]):
        check(same_float(g[0], a, 1e-6, 1e-9) and same_float(g[0] + g[1], b, 1e-6, 1e-9) and g[2] == n,
              '%s: bin [%s, %s] with %s, expected [%s, %s] with %s', what, g[0], g[0] + g[1], g[2], a, b, n)
    return pat


def lims(got, lo, hi, what):
    if lo is not None:
        check(same_float(got[0], lo), '%s: lower limit %s, requested %s', what, got[0], lo)
    if hi is not None:
        check(same_float(got[1], hi), '%s: upper limit %s, requested %s', what, got[1], hi)


def snap(fig):
    """everything drawn in a figure"""
    out = []
    for ax in fig.axes:
        out.append((len(ax.lines), len(ax.patches), len(ax.collections), len(ax.texts), ax.get_xlabel(), ax.get_ylabel(), ax.get_title(),
                    repr([line(l)[1].round(9).tolist() for l in ax.lines]), tuple(ax.get_xlim()), tuple(ax.get_ylim())))
    return out


def yields(n, tz, step='D', start='2016-01-05', nan=False):
    i = pd.date_range(start, periods=n, freq=step, tz=tz)
    v = np.array([0.9 + 0.1 * _N[k] - 0.00002 * k for k in range(n)])
    if nan:
        v[[2, n // 2, n - 1]] = np.nan
    return pd.Series(v, index=i)


def slopes(n, tz, rd=-0.8, step='D', start='2017-01-05'):
    i = pd.date_range(start, periods=n, freq=step, tz=tz)
    return pd.Series([rd + 3 * _N[k] for k in range(n)], index=i)


# ------------------------------------------------------------------ degradation summary
def gen_summary(tier):
    big = tier != 'quick'

    def body(ch):
        c = {'n': ch.free('n', [90, 1, 2, 3, 12, 39, 40, 41, 79, 80, 400] if not big else [90] + list(range(1, 60)) + [79, 80, 81, 119, 120, 400, 1000]),
             'tz': ch.choose('tz', [None, 'America/Denver']), 'bins': ch.choose('bins', [None, 1, 7, 100000]),
             'rf': ch.choose('rf', [0.93, 1.0, 250.0]), 'detailed': ch.choose('detailed', [False, True]),
             'nan': ch.choose('nan', [False, True]), 'rd': ch.choose('rd', [-0.8, 0.0, 2.345]), 'step': ch.choose('step', ['D', '7D', 'MS'])}
        c['kw'] = {}
        for k, v in (('hist_xmin', -3.5), ('hist_xmax', 4.0), ('scatter_ymin', 0.2), ('scatter_ymax', 1.9), ('plot_color', 'm'), ('summary_title', 'T i t l e'),
                     ('scatter_alpha', 0.25)):
            if ch.choose(k, [False, True]):
                c['kw'][k] = v
        return c
    return body


def judge_summary(fig, rd, ci, info, y, kw, detailed, bins, what='summary plot'):
    ax1, ax2 = fig.axes
    v = info['YoY_values']
    b = bins if bins is not None else kw.get('bins')
    b = max(len(v) // 40, 1) if b is None else b
    hist(ax2, v, int(min(b, len(v))), what)
    col = kw.get('plot_color') or 'C0'
    check(all(color(p.get_facecolor()) == color(col) for p in ax2.patches), '%s: histogram colour', what)
    vl = [l for l in ax2.lines if len(line(l)[0]) == 2 and line(l)[0][0] == line(l)[0][1]]
    check(len(vl) == 1 and same_float(line(vl[0])[0][0], rd), '%s: vertical line at %s, rate is %s', what, [line(l)[0][0] for l in vl], rd)
    lims(ax2.get_xlim(), kw.get('hist_xmin'), kw.get('hist_xmax'), what)
    t = ' '.join(x.get_text() for x in ax2.texts)
    for z in (rd, ci[0], ci[1]):
        check('%.2f' % z in t, '%s: %.2f is not in the annotation %r', what, z, t)
    check(('n = %d' % len(v) in t) == bool(detailed), '%s: number of slopes in the annotation %r', what, t)
    # scatter of the renormalised yield
    check(len(ax1.collections) == 1, '%s: %s scatter collections', what, len(ax1.collections))
    sc = ax1.collections[0]
    off = np.ma.filled(np.ma.asarray(sc.get_offsets(), float), np.nan)
    check(len(off) == len(y), '%s: %s points drawn of %s', what, len(off), len(y))
    e = y.to_numpy(float) / info['renormalizing_factor']
    x = num_times(y.index)
    ok = ~np.isnan(e)
    check(same_values(off[ok, 0], x[ok], 1e-12, 1e-7) and same_values(off[ok, 1], e[ok], 1e-9), '%s: scatter points differ', what)
    check(np.isnan(off[~ok]).any(axis=1).all(), '%s: missing yield drawn', what)
    al = kw.get('scatter_alpha', 0.5)
    fc = [tuple(round(float(z), 6) for z in r) for r in sc.get_facecolors()]
    if detailed:
        m = {0: 'red', 1: 'green', 2: col}
        u = info['usage_of_points'].reindex(y.index)
        exp = [color(m[int(z)])[:3] + (al,) for z in u]
        fc = fc if len(fc) == len(exp) else fc * len(exp)
        bad = [i for i in range(len(exp)) if fc[i] != exp[i] and ok[i]]
        check(not bad, '%s: point %s (used %s times) has colour %s', what, bad[:1], u.iloc[bad[0]] if bad else 0, fc[bad[0]] if bad else 0)
    else:
        check(set(fc) == {color(col)[:3] + (al,)}, '%s: point colours %s', what, set(fc))
    # trend line from 1 at the first time along the rate
    l = ax1.lines
    check(len(l) == 1, '%s: %s lines in the scatter plot', what, len(l))
    lx, ly = line(l[0])
    check(len(lx) == 2 and same_values(lx, [x[0], x[-1]], 1e-12, 1e-7), '%s: trend line spans %s', what, lx)
    days = math.floor(x[-1] - x[0] + 1e-9)
    yrs = days / 365.25
    check(same_float(ly[0], 1.0) and abs(ly[1] - (1 + rd * yrs / 100)) <= 1e-9 + abs(rd) / 100 * 1.01 / 365.25, '%s: trend line values %s', what, ly)
    lims(ax1.get_ylim(), kw.get('scatter_ymin'), kw.get('scatter_ymax'), what)
    if 'summary_title' in kw:
        check(fig._suptitle is not None and fig._suptitle.get_text() == kw['summary_title'], '%s: title', what)
    else:
        check(fig._suptitle is None or fig._suptitle.get_text() == '', '%s: a title that was not requested', what)


def run_summary(c, obs):
    from rdtools.plotting import degradation_summary_plots
    plt = plt_()
    plt.close('all')
    n = c['n']
    y = yields(n + (365 if c['step'] == 'D' else 52 if c['step'] == '7D' else 12), c['tz'], c['step'], nan=c['nan'])
    info = {'YoY_values': slopes(n, c['tz'], c['rd'], c['step']), 'renormalizing_factor': c['rf'], 'exceedance_level': -1.0,
            'usage_of_points': pd.Series([k * 7 % 3 for k in range(len(y))], index=y.index)}
    ci = np.array([c['rd'] - 0.123, c['rd'] + 0.417])
    kw = dict(c['kw'])
    if c['bins'] is not None:
        kw['bins'] = c['bins']
    if c['detailed']:
        kw['detailed'] = True
    else:
        info.pop('usage_of_points')
    fig = degradation_summary_plots(c['rd'], ci, info, y, **kw)
    judge_summary(fig, c['rd'], ci, info, y, kw, c['detailed'], None)
    obs.model()
    obs.outcome = [len(fig.axes[1].patches), n, c['detailed']]
    plt.close('all')


# ------------------------------------------------------------------ degradation time series
def gen_ts(tier):
    big = tier != 'quick'

    def body(ch):
        return {'n': ch.free('n', [30, 5, 60, 400]), 'roll': ch.free('roll', [10, 7, 2, 365] + ([30, 60, 3] if big else [])),
                'ci': ch.free('ci', [True, False]), 'fig': ch.choose('fig', ['none', 'own', 'own2', 'own_other']),
                'tz': ch.choose('tz', [None, 'America/Denver', 'UTC']), 'gaps': ch.choose('gaps', [0, 1, 2]),
                'col': ch.choose('col', [None, 'r']), 'cicol': ch.choose('cicol', [None, 'y']), 'kw': ch.choose('kw', [None, 'label']),
                'seed': ch.choose('seed', [0, 1])}
    return body


def roll_ref(times_ns, v, days):
    out, mn, mx = [], [], []
    for i, t in enumerate(times_ns):
        w = [v[j] for j in range(i + 1) if times_ns[j] > t - days * DAY]
        if len(w) < max(days // 2, 1):
            out.append(NaN), mn.append(NaN), mx.append(NaN)
        else:
            out.append(median(w)), mn.append(min(w)), mx.append(max(w))
    return np.array(out), np.array(mn), np.array(mx)


def judge_ts(ax, s, roll, ci, col, cicol, what='time series plot', before=0):
    t = ns_of(s.index)
    med, mn, mx = roll_ref(t, s.to_list(), roll)
    x = num_times(s.index)
    lines = list(ax.lines)[before:]
    l = take(lines, x, med, what)
    check(color(l.get_color()) == color(col or 'tab:orange'), '%s: line colour %s', what, l.get_color())
    h = [k for k in lines if len(line(k)[0]) == 2 and line(k)[1][0] == line(k)[1][1]]
    check(len(lines) == 1 and len(h) == 1 and same_float(line(h[0])[1][0], median(s.to_list())), '%s: overall median line at %s, expected %s', what,
          [line(k)[1][0] for k in h], median(s.to_list()))
    check((len(ax.collections) >= 1) == bool(ci), '%s: confidence band drawn: %s, requested %s', what, len(ax.collections), ci)
    if ci:
        check(len(ax.collections) == 1, '%s: %s bands', what, len(ax.collections))
        pc = ax.collections[0]
        check(color(pc.get_facecolor()[0]) == color(cicol or 'C0'), '%s: band colour', what)
        band = {}
        for p in pc.get_paths():
            for vx, vy in p.vertices:
                band.setdefault(round(float(vx), 5), []).append(float(vy))
        k = ~np.isnan(med)
        xs = {round(float(z), 5): (a, b, m) for z, a, b, m in zip(x[k], mn[k], mx[k], med[k])}
        if xs:
            check(set(band) == set(xs), '%s: the band covers %s times, expected %s', what, len(band), len(xs))
        for z, ys in band.items():
            if z in xs:
                a, b, m = xs[z]
                check(a - 1e-9 <= min(ys) and max(ys) <= b + 1e-9, '%s: band %s outside the values of the window [%s, %s]', what, (min(ys), max(ys)), a, b)
                if b - a > 1e-9:
                    check(min(ys) - 1e-9 <= m <= max(ys) + 1e-9, '%s: band %s does not hold the median %s', what, (min(ys), max(ys)), m)
    check('egradation' in ax.get_ylabel(), '%s: y label %r', what, ax.get_ylabel())


def run_ts(c, obs):
    from rdtools.plotting import degradation_timeseries_plot
    plt = plt_()
    plt.close('all')
    s = slopes(c['n'], c['tz'])
    if c['gaps']:
        keep = np.array([(k * 5 % 7) > c['gaps'] for k in range(len(s))])
        s = s[keep]
    info = {'YoY_values': s}
    other = None
    kw = {}
    if c['fig'] != 'none':
        f, axs = plt.subplots(1, 2 if c['fig'] == 'own2' else 1)
        kw['fig'] = f
        if c['fig'] == 'own_other':
            other, oax = plt.subplots()
            oax.plot([1, 2], [3, 4])
            oax.set_ylabel('other')
    elif c['seed']:
        other, oax = plt.subplots()
        oax.set_ylabel('other')
    bo = snap(other) if other is not None else None
    b2 = snap(kw['fig'])[1:] if c['fig'] == 'own2' else None
    if c['col']:
        kw['plot_color'] = c['col']
    if c['cicol']:
        kw['ci_color'] = c['cicol']
    if c['kw']:
        kw['label'] = 'my label'
    if not c['ci']:
        kw['include_ci'] = False
    if c['roll'] != 365:
        kw['rolling_days'] = c['roll']
    np.random.seed(c['seed'])
    fig = degradation_timeseries_plot(info, **kw)
    if 'fig' in kw:
        check(fig is kw['fig'], 'a new figure although one was given')
    else:
        check(fig is not other, 'drawn into a figure of someone else')
    judge_ts(fig.axes[0], s, c['roll'], c['ci'], c['col'], c['cicol'])
    if c['kw']:
        check(any(l.get_label() == 'my label' for l in fig.axes[0].lines), 'keyword argument not passed on')
    if other is not None:
        check(snap(other) == bo, 'another figure was changed')
    if b2 is not None:
        check(snap(fig)[1:] == b2, 'other axes of the given figure were changed')
    obs.model()
    obs.outcome = [c['n'], c['roll'], len(fig.axes[0].lines)]
    plt.close('all')


# ------------------------------------------------------------------ soiling plots
def soil_info(n, reps, tz, bad):
    i = pd.date_range('2020-03-01', periods=n, freq='D', tz=tz)
    prof = []
    for r in range(reps):
        prof.append(pd.Series([1 - 0.002 * ((k + r) % 20) - 0.001 * r for k in range(n)], index=i, name='stochastic_soiling_profile'))
    rates = [-0.004 + 0.003 * _N[k] for k in range(12)]
    summ = pd.DataFrame({'start': [i[0] + pd.Timedelta(days=5 * k) for k in range(12)], 'end': [i[0] + pd.Timedelta(days=5 * k + 4) for k in range(12)],
                         'soiling_rate': rates, 'soiling_rate_low': [x - 0.001 for x in rates], 'soiling_rate_high': [x + 0.001 for x in rates],
                         'inferred_start_loss': 1.0, 'inferred_end_loss': 0.9, 'length': 4, 'valid': [(k % 3) not in bad for k in range(12)]})
    perfect = pd.Series([1 - 0.003 * (k % 15) for k in range(n)], index=i)[[(k // 15) % 3 not in bad for k in range(n)]]
    return {'renormalizing_factor': 0.87, 'exceedance_level': 0.9, 'stochastic_soiling_profiles': prof, 'soiling_interval_summary': summ,
            'soiling_ratio_perfect_clean': perfect}


def gen_soil(tier):
    def body(ch):
        return {'plot': ch.free('plot', ['mc', 'interval', 'rates']), 'n': ch.choose('n', [60, 20, 1]), 'reps': ch.choose('reps', [4, 1, 12]),
                'tz': ch.choose('tz', [None, 'America/Denver']), 'bad': ch.choose('bad', [[], [1], [0, 2]]), 'nan': ch.choose('nan', [False, True]),
                'profiles': ch.choose('profiles', [None, 0, 1, 3, 99]), 'bins': ch.choose('bins', [None, 1, 4]),
                'ymin': ch.choose('ymin', [None, 0.3, 0]), 'ymax': ch.choose('ymax', [None, 1.4]), 'pa': ch.choose('pa', [None, 0.9]),
                'fa': ch.choose('fa', [None, 0.6]), 'pc': ch.choose('pc', [None, 'k']), 'fc': ch.choose('fc', [None, 'g'])}
    return body


def judge_mc(ax, info, y, c, what='Monte Carlo plot'):
    lines = list(ax.lines)
    e = y.to_numpy(float) / info['renormalizing_factor']
    l = take(lines, num_times(y.index), e, what + ', yield')
    check(l.get_marker() == 'o' and l.get_linestyle() in ('None', '', ' '), '%s: yield is not drawn as points', what)
    check(same_float(l.get_alpha(), 0.5 if c['pa'] is None else c['pa']), '%s: point alpha %s', what, l.get_alpha())
    if c['pc']:
        check(color(l.get_color()) == color(c['pc']), '%s: point colour', what)
    ps = info['stochastic_soiling_profiles']
    k = len(ps) if c['profiles'] is None else min(c['profiles'], len(ps))
    for q in ps[:k]:
        p = take(lines, num_times(q.index), q.to_numpy(float), what + ', profile')
        check(color(p.get_color()) == color(c['fc'] or 'C1'), '%s: profile colour', what)
        check(same_float(p.get_alpha(), 0.05 if c['fa'] is None else c['fa']), '%s: profile alpha %s', what, p.get_alpha())
    check(not lines, '%s: %s more lines than the %s requested profiles', what, len(lines), k)
    lims(ax.get_ylim(), c['ymin'], c['ymax'], what)


def judge_interval(ax, info, y, c, what='interval plot'):
    lines = list(ax.lines)
    e = y.to_numpy(float) / info['renormalizing_factor']
    l = take(lines, num_times(y.index), e, what + ', yield')
    check(same_float(l.get_alpha(), 0.5 if c['pa'] is None else c['pa']), '%s: point alpha', what)
    if c['pc']:
        check(color(l.get_color()) == color(c['pc']), '%s: point colour', what)
    p = info['soiling_ratio_perfect_clean']
    l = take(lines, num_times(p.index), p.to_numpy(float), what + ', soiling ratio')
    check(same_float(l.get_alpha(), 1 if c['fa'] is None else c['fa']), '%s: interval alpha', what)
    if c['fc']:
        check(color(l.get_color()) == color(c['fc']), '%s: interval colour', what)
    check(l.get_marker() == 'o' and l.get_linestyle() in ('None', '', ' '), '%s: intervals are joined', what)
    check(not lines, '%s: extra lines', what)
    lims(ax.get_ylim(), c['ymin'], c['ymax'], what)


def judge_rates(ax, info, bins, what='rate histogram'):
    s = info['soiling_interval_summary']
    v = [100 * r for r, ok in zip(s['soiling_rate'], s['valid']) if ok]
    hist(ax, v, bins if bins is not None else 10, what)


def run_soil(c, obs):
    from rdtools import plotting as P
    plt = plt_()
    plt.close('all')
    info = soil_info(c['n'], c['reps'], c['tz'], c['bad'])
    y = yields(c['n'] + 5, c['tz'], start='2020-02-27')
    if c['nan']:
        y.iloc[0] = np.nan
    if c['plot'] == 'rates':
        fig = P.soiling_rate_histogram(info, **({} if c['bins'] is None else {'bins': c['bins']}))
        judge_rates(fig.axes[0], info, c['bins'])
    else:
        kw = {k: c[q] for k, q in (('ymin', 'ymin'), ('ymax', 'ymax'), ('point_alpha', 'pa'), ('profile_alpha', 'fa'), ('point_color', 'pc'),
                                   ('profile_color', 'fc')) if c[q] is not None}
        if c['plot'] == 'mc':
            if c['profiles'] is not None:
                kw['profiles'] = c['profiles']
            fig = P.soiling_monte_carlo_plot(info, y, **kw)
            judge_mc(fig.axes[0], info, y, c)
        else:
            fig = P.soiling_interval_plot(info, y, **kw)
            judge_interval(fig.axes[0], info, y, c)
    check(len(fig.axes) == 1, '%s axes', len(fig.axes))
    obs.model()
    obs.outcome = [c['plot'], len(fig.axes[0].lines), len(fig.axes[0].patches)]
    plt.close('all')


# ------------------------------------------------------------------ availability
def gen_avail(tier):
    def body(ch):
        return {'n': ch.free('n', [96, 30]), 'sub': ch.free('sub', [2, 1, 5]), 'outages': ch.free('outages', [[[10, 14]], [], [[5, 8], [20, 26]], [[0, 3], [25, 29], [12, 12]]]),
                'tz': ch.free('tz', [None, 'America/Denver']), 'idx': ch.free('idx', ['range', 'odd']), 'step': ch.free('step', ['h', '15min'])}
    return body


def judge_avail(fig, ps, sub, loss, cum, exp, info, what='availability plot'):
    check(len(fig.axes) == 4, '%s: %s axes', what, len(fig.axes))
    by = {ax.get_ylabel().split(' [')[0]: ax for ax in fig.axes}
    A = [by.get(k) for k in ('System power', 'Inverter power', 'Estimated lost power', 'Cumulative Energy')]
    check(all(a is not None for a in A), '%s: axes labelled %s', what, list(by))
    for ax, s in ((A[0], ps), (A[2], loss)):
        lines = list(ax.lines)
        take(lines, num_times(s.index), s.to_numpy(float), what + ', ' + ax.get_ylabel())
        check(not lines, '%s: extra lines', what)
    lines = list(A[1].lines)
    for k in range(sub.shape[1]):
        take(lines, num_times(sub.index), sub.iloc[:, k].to_numpy(float), what + ', subsystem %d' % k)
    check(not lines, '%s: extra subsystem lines', what)
    lines = list(A[3].lines)
    take(lines, num_times(cum.index), cum.to_numpy(float), what + ', cumulative energy')
    from matplotlib.container import ErrorbarContainer
    bars = [b for b in A[3].containers if isinstance(b, ErrorbarContainer)]
    check(len(bars) == len(info), '%s: %s error bars for %s outages', what, len(bars), len(info))
    for b in bars:
        for l in [b[0]] + list(b[1]):
            if l in lines:
                lines.remove(l)
    ends = []
    for _, r in info.iterrows():
        seg = exp[(exp.index >= r['start']) & (exp.index <= r['end'])]
        acc = np.cumsum(seg.to_numpy(float)) + r['energy_start']
        take(lines, num_times(seg.index), acc, what + ', expected production')
        m = r['energy_expected']
        ends.append((num_times(pd.DatetimeIndex([r['end']]))[0], acc[-1], acc[-1] - abs(m - r['ci_lower']), acc[-1] + abs(m - r['ci_upper'])))
    check(not lines, '%s: %s extra lines', what, len(lines))
    got = []
    for b in bars:
        for seg in b[2][0].get_segments():
            got.append((seg[0][0], min(seg[0][1], seg[1][1]), max(seg[0][1], seg[1][1])))
    for (x, m, lo, hi) in ends:
        hit = [g for g in got if same_float(g[0], x, 1e-12, 1e-7) and same_float(g[1], lo, 1e-9, 1e-9) and same_float(g[2], hi, 1e-9, 1e-9)]
        check(hit, '%s: no error bar [%s, %s] at the end of the outage, drawn: %s', what, lo, hi, got)
    leg = A[3].get_legend()
    names = [t.get_text() for t in leg.get_texts()] if leg is not None else []
    check(len(names) == len(set(names)) and ('Expected Production' in names) == (len(info) > 0), '%s: legend %s', what, names)


def run_avail(c, obs):
    from rdtools.plotting import availability_summary_plots
    plt = plt_()
    plt.close('all')
    n = c['n']
    i = pd.date_range('2021-03-13', periods=n, freq=c['step'], tz=c['tz'])
    sub = pd.DataFrame({'inv%d' % k: [5 + k + 4 * _N[j + 31 * k] for j in range(n)] for k in range(c['sub'])}, index=i)
    ps = sub.sum(axis=1) * 0.97
    loss = pd.Series([max(0, _N[j]) for j in range(n)], index=i)
    cum = ps.cumsum()
    exp = ps * 1.04
    rows = []
    for a, b in c['outages']:
        rows.append({'start': i[a], 'end': i[b], 'energy_start': cum.iloc[a] - 1, 'energy_end': cum.iloc[b], 'energy_expected': 40.0 + a, 'energy_actual': 12.0,
                     'ci_lower': 31.0 + a, 'ci_upper': 44.0 + a, 'type': 'real', 'loss': 20.0})
    info = pd.DataFrame(rows, columns=['start', 'end', 'energy_start', 'energy_end', 'energy_expected', 'energy_actual', 'ci_lower', 'ci_upper', 'type', 'loss'])
    if c['idx'] == 'odd':
        info.index = [7 - 2 * k for k in range(len(info))]
    fig = availability_summary_plots(ps, sub, loss, cum, exp, info)
    judge_avail(fig, ps, sub, loss, cum, exp, info)
    obs.model()
    obs.outcome = [n, c['sub'], len(rows)]
    plt.close('all')


# ------------------------------------------------------------------ tune_filter_plot
def gen_tune(tier):
    def body(ch):
        n = ch.free('n', [5, 1, 2, 3, 4])
        return {'m': [ch.free('m%d' % k, [True, False]) for k in range(n)], 'name': ch.choose('name', [None, 'power', 0, 'mask_x']),
                'iname': ch.choose('iname', [None, 'time', 'index']), 'tz': ch.choose('tz', [None, 'America/Denver']), 'nan': ch.choose('nan', [False, True]),
                'order': ch.choose('order', ['same', 'reversed_mask'])}
    return body


def run_tune(c, obs):
    from rdtools.plotting import tune_filter_plot
    n = len(c['m'])
    i = pd.date_range('2021-03-14', periods=n, freq='h', tz=c['tz'])
    s = pd.Series([10.0 * k + 1 for k in range(n)], index=i, name=c['name'])
    if c['nan']:
        s.iloc[0] = np.nan
    s.index.name = c['iname']
    m = pd.Series(c['m'], index=i)
    if c['order'] == 'reversed_mask':
        m = m.iloc[::-1]
    fig = tune_filter_plot(s, m)
    got = {}
    for t in fig.data:
        key = {'True': True, 'False': False}.get(t.name)
        check(key is not None, 'trace %r', t.name)
        check(key not in got, 'two traces for %s', key)
        x = pd.DatetimeIndex(pd.to_datetime(list(t.x), utc=c['tz'] is not None))
        if c['tz'] is None and x.tz is not None:
            x = x.tz_localize(None)
        got[key] = list(zip(ns_of(x), [float(v) for v in t.y]))
        check(t.marker.color == ('blue' if key else 'goldenrod'), 'trace %s is %s', key, t.marker.color)
    for key in (True, False):
        e = [(x, v) for x, v, b in zip(ns_of(i), s.to_list(), c['m']) if b == key]
        g = got.get(key, [])
        check(len(g) == len(e) and all(a[0] == b[0] and same_float(a[1], b[1]) for a, b in zip(sorted(g), sorted(e))),
              'points marked %s: %s expected %s', key, g, e)
    obs.model()
    obs.outcome = [len(got.get(True, [])), len(got.get(False, []))]


# ------------------------------------------------------------------ TrendAnalysis and AvailabilityAnalysis plot methods, sequences of plots
_TA = {}


def trend():
    if 'a' in _TA:
        return _TA['a']
    import pvlib
    from mc import ta as T
    from rdtools import TrendAnalysis
    d = T.data(days=800, step_h=3.0, rd=-0.01, start='2018-02-03')
    soil = np.array([1 - 0.004 * (k // 8 % 35) for k in range(len(d['pv']))])
    a = TrendAnalysis(d['pv'] * soil, d['poa'], temperature_cell=d['tcell'], gamma_pdc=-0.004, power_dc_rated=5000.0, aggregation_freq='D')
    a.set_clearsky(pvlib_location=pvlib.location.Location(39.7, -105.2, tz='Etc/GMT+7', altitude=1500), pv_azimuth=180, pv_tilt=20, poa_global_clearsky=d['clear'],
                   temperature_cell_clearsky=d['tcell_cs'])
    a.filter_params['clearsky_filter'] = {'model': 'csi'}
    np.random.seed(5)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        k = dict(reps=6, day_scale=5, min_interval_length=3)
        a.sensor_analysis(analyses=['yoy_degradation', 'srr_soiling'], srr_kwargs=k)
        a.clearsky_analysis(analyses=['yoy_degradation', 'srr_soiling'], srr_kwargs=dict(k, reps=7))
    _TA['a'] = a
    return a


PLOTS = ['summary', 'mc', 'interval', 'rates', 'pv', 'ts', 'bad']


def gen_seq(tier):
    big = tier != 'quick'

    def body(ch):
        n = 3 if big else 2
        seq = []
        for k in range(n):
            p = ch.free('p%d' % k, PLOTS)
            seq.append([p, ch.free('c%d' % k, ['sensor', 'clearsky'])])
        return {'seq': seq, 'opt': ch.choose('opt', [False, True])}
    return body


def do_plot(a, p, case, opt):
    """draw and judge one plot of the analysis object"""
    none = dict(pa=None, fa=None, pc=None, fc=None, ymin=None, ymax=None, profiles=None)
    agg = a.sensor_aggregated_performance if case == 'sensor' else a.clearsky_aggregated_performance
    R = a.results[case]
    if p == 'bad':
        for m in (a.plot_degradation_summary, a.plot_soiling_monte_carlo, a.plot_soiling_interval, a.plot_soiling_rate_histogram, a.plot_pv_vs_irradiance,
                  a.plot_degradation_timeseries):
            expect_raises(ValueError, lambda: m('sensr' if case == 'sensor' else ''), 'unknown case')
        return None
    if p == 'summary':
        kw = {'detailed': True, 'plot_color': 'c', 'bins': 9} if opt else {}
        fig = a.plot_degradation_summary(case, **kw)
        y = R['yoy_degradation']
        judge_summary(fig, y['p50_rd'], y['rd_confidence_interval'], y['calc_info'], agg, kw, opt, None, 'plot_degradation_summary(%s)' % case)
    elif p == 'mc':
        kw = {'profiles': 2, 'profile_color': 'g'} if opt else {}
        fig = a.plot_soiling_monte_carlo(case, **kw)
        judge_mc(fig.axes[0], R['srr_soiling']['calc_info'], agg, dict(none, **({'profiles': 2, 'fc': 'g'} if opt else {})), 'plot_soiling_monte_carlo(%s)' % case)
    elif p == 'interval':
        kw = {'ymin': 0.1, 'point_color': 'k'} if opt else {}
        fig = a.plot_soiling_interval(case, **kw)
        judge_interval(fig.axes[0], R['srr_soiling']['calc_info'], agg, dict(none, **({'ymin': 0.1, 'pc': 'k'} if opt else {})), 'plot_soiling_interval(%s)' % case)
    elif p == 'rates':
        fig = a.plot_soiling_rate_histogram(case, **({'bins': 4} if opt else {}))
        judge_rates(fig.axes[0], R['srr_soiling']['calc_info'], 4 if opt else None, 'plot_soiling_rate_histogram(%s)' % case)
    elif p == 'pv':
        fig = a.plot_pv_vs_irradiance(case, **({'alpha': 0.3, 'color': 'r'} if opt else {}))
        poa = a.poa_global if case == 'sensor' else a.poa_global_clearsky
        common = [t for t in a.pv_energy.index if t in poa.index]
        x, y = poa.loc[common].to_numpy(float), a.pv_energy.loc[common].to_numpy(float)
        l = list(fig.axes[0].lines)
        check(len(l) == 1, 'plot_pv_vs_irradiance: %s lines', len(l))
        gx, gy = line(l[0])
        f = lambda u, v: sorted((round(float(p_), 6), round(float(q_), 6)) for p_, q_ in zip(u, v) if not (math.isnan(p_) or math.isnan(q_)))  # noqa
        check(f(gx, gy) == f(x, y), 'plot_pv_vs_irradiance(%s): points differ', case)
        check(same_float(l[0].get_alpha(), 0.3 if opt else 0.01), 'plot_pv_vs_irradiance: alpha %s', l[0].get_alpha())
        check(l[0].get_linestyle() in ('None', '', ' '), 'plot_pv_vs_irradiance: points are joined')
    else:
        roll = 30 if opt else 60
        fig = a.plot_degradation_timeseries(case, rolling_days=roll, include_ci=False, **({'plot_color': 'b'} if opt else {}))
        judge_ts(fig.axes[0], R['yoy_degradation']['calc_info']['YoY_values'], roll, False, 'b' if opt else None, None, 'plot_degradation_timeseries(%s)' % case)
    return fig


def run_seq(c, obs):
    plt = plt_()
    plt.close('all')
    a = trend()
    figs = []
    for p, case in c['seq']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fig = do_plot(a, p, case, c['opt'])
        if fig is None:
            continue
        for f, b, q in figs:
            check(f is not fig, 'plot %s reuses the figure of %s', p, q)
            check(snap(f) == b, 'plot %s changes the figure of %s', p, q)
        figs.append((fig, snap(fig), p))
    obs.model(len(figs))
    obs.outcome = [[x[2], len(x[0].axes)] for x in figs]
    plt.close('all')


def gen_aa(tier):
    def body(ch):
        return {'gap': ch.free('gap', ['none', 'one', 'two']), 'twice': ch.free('twice', [False, True])}
    return body


def run_aa(c, obs):
    from rdtools.availability import AvailabilityAnalysis
    plt = plt_()
    plt.close('all')
    n = 24 * 20
    i = pd.date_range('2021-06-01', periods=n, freq='h', tz='Etc/GMT+7')
    sun = np.array([max(0.0, math.sin((k % 24 - 5.5) / 14 * math.pi)) * (1 + 0.2 * _N[k]) for k in range(n)])
    sub = pd.DataFrame({'a': 10 * sun, 'b': 11 * sun}, index=i)
    exp = pd.Series(22 * sun, index=i)
    if c['gap'] != 'none':
        sub.iloc[24 * 5 + 8:24 * 5 + 15, 0] = 0.0
    meter = sub.sum(axis=1)
    if c['gap'] == 'two':
        sub.iloc[24 * 9:24 * 11] = np.nan
        meter.iloc[24 * 9:24 * 11] = np.nan
        sub.iloc[24 * 14:24 * 15] = np.nan
        meter.iloc[24 * 14:24 * 15] = np.nan
    cum = (sub.fillna(0).sum(axis=1)).cumsum() + 500
    cum[meter.isna()] = np.nan
    aa = AvailabilityAnalysis(meter, sub, cum, exp)
    expect_raises(Exception, aa.plot, 'plot before run')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        aa.run()
    fig = aa.plot()
    if c['twice']:
        b = snap(fig)
        f2 = aa.plot()
        check(f2 is not fig and snap(fig) == b and snap(f2) == b, 'the second plot differs from the first')
    judge_avail(fig, aa.power_system, aa.power_subsystem, aa.loss_total, aa.energy_cumulative, aa.energy_expected_rescaled, aa.outage_info, 'AvailabilityAnalysis.plot')
    check(same_values(aa.power_system, meter.fillna(0)) or same_values(aa.power_system, meter), 'system power changed')
    obs.model()
    obs.outcome = [len(aa.outage_info)]
    plt.close('all')


def families(tier):
    big = tier != 'quick'
    return [dict(name='summary', gen=gen_summary(tier), run=run_summary, bound=3 if big else 2),
            dict(name='timeseries', gen=gen_ts(tier), run=run_ts, bound=3 if big else 2),
            dict(name='soiling', gen=gen_soil(tier), run=run_soil, bound=3 if big else 2),
            dict(name='availability', gen=gen_avail(tier), run=run_avail, bound=0),
            dict(name='tune', gen=gen_tune(tier), run=run_tune, bound=2 if big else 1),
            dict(name='sequences', gen=gen_seq(tier), run=run_seq, bound=1),
            dict(name='availability_object', gen=gen_aa(tier), run=run_aa, bound=0)]
