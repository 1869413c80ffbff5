"""C22 CODS: components multiply back to the model, bootstrap summaries weight exactly the successful fits."""
import contextlib
import math

import numpy as np
import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = ['statsmodels (STL, lowess, adfuller), filterpy and arch are trusted',
               'bootstrap family: the decomposition of a single signal is replaced by a stand-in whose outcome (fit, no stationarity, failure, small signal) '
               'is enumerated; the decomposition itself is judged by the other family on the real code']
COLS = ['soiling_ratio', 'soiling_rates', 'cleaning_events', 'seasonal_component', 'degradation_trend', 'total_model', 'residuals']


def signal(c):
    i = pd.date_range(c['t0'], periods=c['n'], freq='D', tz=c.get('tz'))
    k = np.arange(c['n'])
    noise = np.array([((j * 7919 + 13) % 1009) / 1009.0 - .5 for j in k])
    sr = 1 - c['amp'] * (k % c['period']) * (1 + 0.5 * ((k // c['period']) % 3)) / 1.5
    sc = 1 + c['season'] * np.cos(2 * np.pi * (i.dayofyear - 15) / 365.0)
    rd = 1 + c['rate'] / 100 * k / 365.0
    v = np.array(c['scale'] * sr * sc * rd * (1 + c['noise'] * noise), dtype=float)
    for a, l in c['nans']:
        v[a:a + l if a >= 0 else None] = np.nan
    return pd.Series(v, i, name='pi'), sr, rd


# --------------------------------------------------------------------------- the decomposition
def gen_dec(tier):
    q = tier == 'quick'

    def body(ch):
        c = {'t0': ch.choose('t0', ['2017-03-01', '2019-06-01', '2018-01-01']), 'n': ch.choose('n', [760, 731, 1100]),
             'amp': ch.choose('amp', [0.003, 0.0005, 0.006]), 'period': ch.choose('period', [40, 90, 25]), 'season': ch.choose('season', [0.03, 0.0, 0.1]),
             'rate': ch.choose('rate', [-1.0, 0.0, -3.0]), 'noise': ch.choose('noise', [0.02, 0.005, 0.06]), 'scale': ch.choose('scale', [1.0, 0.8]),
             'nans': ch.choose('nans', [[], [[0, 5]], [[200, 30]], [[-4, 4]], [[100, 1], [300, 8]]]), 'tz': ch.choose('tz', [None, 'America/Denver'])}
        k = {}
        o = ch.choose('order', [None, ['SC', 'SR', 'Rd'], ['SR', 'Rd'], ['SR', 'SC'], ['SR'], ['Rd', 'SC', 'SR']])
        if o:
            k['order'] = o
        for nm, alts in (('degradation_method', ['STL']), ('max_iterations', [3, 6, 7, 30]), ('cleaning_sensitivity', [0.25, 1.5]), ('convergence_criterion', [1e-9, 0.5]),
                         ('pruning_iterations', [3]), ('clean_pruning_sensitivity', [1.5, 0.2]), ('soiling_significance', [0.1, 0.5, 1.0, 1.4, 2.0, 3.0, 5.0]),
                         ('process_noise', [1e-3]), ('renormalize_SR', [0.5, 0.95]), ('ffill', [False]), ('clip_soiling', [False]), ('verbose', [True])):
            v = ch.choose(nm, ['default'] + alts)
            if v != 'default':
                k[nm] = v
        c['kw'] = k
        return c
    return body


def run_dec(c, obs):
    from rdtools.soiling import CODSAnalysis
    from rdtools.degradation import degradation_year_on_year
    from statsmodels.tsa.stattools import adfuller
    pi, tsr, trd = signal(c)
    before = snap(pi)
    kw = dict(c['kw'])
    if 'order' in kw:
        kw['order'] = tuple(kw['order'])
    a = CODSAnalysis(pi)
    with contextlib.redirect_stdout(None):
        df, r = a.iterative_signal_decomposition(**kw)
    check(snap(pi) == before, 'input modified')
    off = c['nans'][0][1] if c['nans'] and c['nans'][0][0] == 0 else 0
    x = pi.iloc[off:]
    check(df.index.equals(x.index), 'result is not on the days of the input')
    check(list(df.columns) == COLS, 'columns %s', list(df.columns))
    sr, sc, rd = (df[k].to_numpy(dtype=float) for k in ('soiling_ratio', 'seasonal_component', 'degradation_trend'))
    leap = np.array([t.month == 12 and t.day == 31 and t.is_leap_year for t in x.index])
    odd = np.isnan(sc) & leap
    for nm, v in (('soiling_ratio', sr), ('seasonal_component', sc), ('degradation_trend', rd), ('total_model', df['total_model'].to_numpy(dtype=float))):
        check(np.isfinite(v[~odd]).all(), '%s is not finite on %s', nm, x.index[~np.isfinite(v) & ~odd][:3].tolist())
    prod = sr * sc * rd
    res = x.to_numpy() / prod
    check(same_values(df['residuals'], res, 1e-9), 'residuals are not input / (SR SC Rd)')
    shift = np.nanmean(res)
    check(same_float(r['residual_shift'], shift, 1e-9), 'residual shift %s, mean residual %s', r['residual_shift'], shift)
    check(same_values(df['total_model'], prod * shift, 1e-9), 'total model is not SR SC Rd times the residual shift')
    d = (prod * shift - x.to_numpy())
    check(same_float(r['RMSE'], math.sqrt(np.nanmean(d ** 2)), 1e-9), 'RMSE %s expected %s', r['RMSE'], math.sqrt(np.nanmean(d ** 2)))
    if kw.get('clip_soiling', True):
        check((sr <= 1 + 1e-12).all(), 'soiling ratio above 1')
        flat = np.concatenate([[False], np.diff(sr) == 0])
        check((df['soiling_rates'].to_numpy(dtype=float)[flat] == 0).all(), 'soiling rate not zero where the soiling ratio is constant')
    check(df['cleaning_events'].dtype == bool or set(df['cleaning_events']) <= {True, False}, 'cleaning events are not boolean')
    check(same_float(r['soiling_loss'], (1 - sr).mean() * 100, 1e-9), 'soiling loss %s expected %s', r['soiling_loss'], (1 - sr).mean() * 100)
    order = kw.get('order', ('SR', 'SC', 'Rd'))
    stl = kw.get('degradation_method') == 'STL'
    if not stl:
        check(same_values(rd, 1 + np.arange(len(x)) * r['degradation'] / 36500.0, 1e-10), 'degradation trend is not the line of the reported rate')
        if 'Rd' not in order:
            check(r['degradation'] == 0, 'degradation reported without a degradation component')
        if not c['kw'] and not c['nans'] and c['noise'] <= 0.02:
            check(abs(r['degradation'] - c['rate']) < 1.5, 'degradation %s, the signal has %s', r['degradation'], c['rate'])
    elif 'SC' in order:
        check(same_float(rd[0], 1.0), 'degradation trend does not start from 1')
        check(same_float(r['degradation'], degradation_year_on_year(df['degradation_trend'], uncertainty_method=None), 1e-9), 'degradation is not the rate of the trend')
    if 'SC' in order:
        doy = np.minimum(x.index.dayofyear, 366)
        g = pd.Series(sc[~odd], doy[~odd]).groupby(level=0)
        check((g.max() - g.min() < 1e-9).all(), 'seasonal component does not repeat by day of year')
    else:
        check((sc == 1).all(), 'seasonal component without SC')
    if not c['kw'] and not c['nans'] and c['scale'] == 1.0 and c['noise'] <= 0.02:
        check(abs(r['soiling_loss'] - 100 * (1 - tsr.mean())) < 3.0, 'soiling loss %s, the signal has %s', r['soiling_loss'], 100 * (1 - tsr.mean()))
    w = np.isfinite(res)
    ratio = (quantile(list(sr), .9) - quantile(list(sr), .1)) / (quantile(list(res[w]), .9) - quantile(list(res[w]), .1))
    sig = kw.get('soiling_significance', .75)
    if abs(ratio - sig) > 1e-9:
        check(bool(r['small_soiling_signal']) == (ratio < sig), 'small signal %s with strength %s (limit %s)', r['small_soiling_signal'], ratio, sig)
    e = adfuller(res[w], regression='ctt', autolag=None)
    check(same_float(r['adf_res'][0], e[0], 1e-6) and same_float(r['adf_res'][1], e[1], 1e-6, 1e-9), 'stationarity test %s expected %s', r['adf_res'][:2], e[:2])
    obs.model()
    obs.outcome = [round(float(r['degradation']), 4), round(float(r['soiling_loss']), 4)]
    if odd.any():
        fail('known:leap seasonal component and total model are missing on 31 December of a leap year')


# --------------------------------------------------------------------------- the bootstrap
KINDS = ['ok', 'noadf', 'error', 'small']


def gen_bt(tier):
    q = tier == 'quick'

    def body(ch):
        c = {'reps': ch.choose('reps', [16, 10, 32] if not q else [16, 10]), 'cl': ch.choose('cl', [68.2, 95, 0]), 'best': ch.choose('best', [15, 0, 7]),
             'sc': ch.choose('sc', ['one', 'wave']), 'method': ch.choose('method', ['YoY', 'STL']), 'srone': ch.choose('srone', [0, 1]), 'api': ch.choose('api', ['class', 'fn']),
             'nan': ch.choose('nan', [0, 1]), 'alts': ch.choose('alts', [0, 1]), 'tz': ch.choose('tz', [None, 'America/Denver'])}
        c['fit'] = {}
        for m in (0, 3, 9, 15):
            k = ch.choose('fit%d' % m, KINDS)
            if k != 'ok':
                c['fit'][m] = k
        bulk = ch.choose('bulk', [None, ['small', 8], ['small', 9], ['noadf', 8], ['noadf', 9], ['error', 7]])
        if bulk:
            for m in range(1, 1 + bulk[1]):
                c['fit'].setdefault(m, bulk[0])
        c['rep'] = {}
        for m in (0, 1, 7, 15):
            k = ch.choose('rep%d' % m, KINDS[:3])
            if k != 'ok':
                c['rep'][m] = k
        c['fit'] = sorted([k, v] for k, v in c['fit'].items())
        c['rep'] = sorted([k, v] for k, v in c['rep'].items())
        return c
    return body


def run_bt(c, obs):
    from rdtools import soiling
    from rdtools.degradation import degradation_year_on_year
    n = 760
    i = pd.date_range('2017-03-01', periods=n, freq='D', tz=c['tz'])
    k = np.arange(n)
    pi = pd.Series(1 - 0.002 * (k % 50) + 0.01 * np.sin(k * 1.7) - 0.00002 * k, i)
    if c['nan']:
        pi.iloc[[100, 101]] = np.nan
    fit, rep = dict(c['fit']), dict(c['rep'])
    main, fits, reps, params = [], [], [], []
    orig = soiling.CODSAnalysis.iterative_signal_decomposition

    def frame(x, s, best):
        """deterministic pretended fit number s of signal x"""
        idx = x.index
        j = np.arange(len(idx))
        sr = 1 - 0.001 * (1 + s % 5) * ((j + s) % 30)
        if c['srone'] and s % 3 == 0:
            sr = np.where(j < 300, 1.0, sr)
        sc = np.ones(len(idx)) if c['sc'] == 'one' else 1 + 0.02 * np.cos(2 * np.pi * (idx.dayofyear + s) / 365.25)
        rate = -1.0 + 0.1 * ((s * 7) % 11)
        rd = 1 + j * rate / 36500
        tot = sr * sc * rd
        r = x.to_numpy() / tot
        df = pd.DataFrame({'soiling_ratio': sr, 'soiling_rates': np.where((j + s) % 30 == 0, 0.0, -0.001 * (1 + s % 5)), 'cleaning_events': (j + s) % 30 == 0,
                           'seasonal_component': sc, 'degradation_trend': rd, 'total_model': tot * np.nanmean(r), 'residuals': r}, index=idx)
        res = dict(degradation=rate, soiling_loss=float((1 - sr).mean() * 100), residual_shift=float(np.nanmean(r)), RMSE=0.001 if best else 0.01 + 0.002 * ((s * 5) % 7),
                   small_soiling_signal=False, adf_res=(-5.0 - s, 0.001))
        return df, res

    def stub(self, *a, **kw):
        if not main:
            main.append(self)
        first = self is main[0]
        s = len(fits) if first else len(reps)
        kind = (fit if first else rep).get(s, 'ok')
        df, res = frame(self.pm, s, first and s == c['best'])
        if kind == 'noadf':
            res['adf_res'] = (-1.0, 0.5)
        if kind == 'small':
            res['small_soiling_signal'] = True
        (fits if first else reps).append((kind, df.copy(), dict(res), self.pm.copy()))
        if first:
            params.append((kw.get('order'), kw.get('cleaning_sensitivity'), kw.get('clean_pruning_sensitivity'), kw.get('ffill')))
        if kind == 'error':
            raise ValueError('fit failed')
        return df, res

    kw = dict(reps=c['reps'], confidence_level=c['cl'], degradation_method=c['method'], bootstrap_seed=5)
    alts = [[('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd')], [.25, .75], [1 / 1.5, 1.5], [True, False]]
    if c['alts']:
        alts = [[('SR', 'Rd', 'SC'), ('SR', 'SC', 'Rd')], [.3, .6], [.9, 1.1], [False, True]]
        kw.update(order_alternatives=tuple(alts[0]), cleaning_sensitivity_alternatives=tuple(alts[1]), clean_pruning_sensitivity_alternatives=tuple(alts[2]),
                  forward_fill_alternatives=tuple(alts[3]))
    before = snap(pi)
    np.random.seed(3)

    def call():
        with contextlib.redirect_stdout(None):
            if c['api'] == 'fn':
                o = soiling.soiling_cods(pi, **kw)
                return main[0], o
            a = soiling.CODSAnalysis(pi)
            main.append(a)
            return a, a.run_bootstrap(**kw)

    kinds = [fit.get(m, 'ok') for m in range(16)]
    n_small = kinds.count('small')
    n_noadf = kinds.count('noadf')
    soiling.CODSAnalysis.iterative_signal_decomposition = stub
    try:
        if n_noadf > 8:
            expect_raises(RuntimeError, call, 'more than half of the fits are not stationary')
            obs.model()
            obs.outcome = 'not decomposable'
            return
        w = with_warnings(call)
    finally:
        soiling.CODSAnalysis.iterative_signal_decomposition = orig
    a, out = w.result
    check(snap(pi) == before, 'input modified')
    import itertools
    check(sorted(map(repr, params)) == sorted(map(repr, itertools.product(*alts))), 'initial fits use parameters %s', params)
    good = [(df, r) for kd, df, r, _ in fits if kd != 'error']
    wt = np.array([1 / r['RMSE'] / (1 + (df.soiling_ratio == 1).mean()) for df, r in good])
    best_df, best_r = good[int(np.argmax(wt))]
    small = n_small > 8
    check(bool(a.small_soiling_signal) == small, 'small_soiling_signal %s', a.small_soiling_signal)
    check(w.any(UserWarning, 'soiling signal is small') == small, 'small-signal warning')
    df = a.result_df
    if small:
        check(snap(df) == snap(best_df), 'the result is not the best fit')
        deg = degradation_year_on_year(pi, uncertainty_method=None)
        check(same_float(a.degradation[0], deg, 1e-9) and a.degradation[1] <= a.degradation[2], 'degradation %s expected %s', a.degradation, deg)
        exp_sl = [0, 0, float((1 - best_df.soiling_ratio).mean() * 100)]
        check(same_values(a.soiling_loss, exp_sl, 1e-9), 'soiling loss %s expected %s', a.soiling_loss, exp_sl)
    else:
        n_ok = kinds.count('ok') + n_small
        per = -(-c['reps'] // 16)
        check(len(reps) == n_ok * per, '%s bootstrap fits, expected %s', len(reps), n_ok * per)
        use = [(d, r) for kd, d, r, _ in reps if kd == 'ok']
        ww = np.array([1 / r['RMSE'] / (1 + (d.soiling_ratio == 1).mean()) for d, r in use])
        ww = ww / ww.sum()
        lo, hi = .5 - c['cl'] / 200, .5 + c['cl'] / 200
        for nm, key, col in (('degradation', 'degradation', a.degradation), ('soiling_loss', 'soiling_loss', a.soiling_loss)):
            xs = [r[key] for d, r in use]
            e = [float(np.dot(xs, ww)), quantile(xs, lo), quantile(xs, hi)]
            check(same_values(col, e, 1e-9), '%s %s expected %s', nm, list(col), e)
        J = np.arange(n)

        def mat(col):
            return np.array([d[col].to_numpy(dtype=float) for d, r in use])
        for col, lown, highn, btn in (('soiling_ratio', 'SR_low', 'SR_high', 'bt_soiling_ratio'), ('soiling_rates', 'rates_low', 'rates_high', 'bt_soiling_rates'),
                                      ('total_model', 'model_low', 'model_high', None)):
            m = mat(col)
            check(same_values(df[lown], np.quantile(m, lo, axis=0), 1e-8), '%s is not the %s quantile of the bootstrap fits', lown, lo)
            check(same_values(df[highn], np.quantile(m, hi, axis=0), 1e-8), '%s is not the %s quantile of the bootstrap fits', highn, hi)
            if btn:
                check(same_values(df[btn], ww @ m, 1e-8), '%s is not the weighted mean of the bootstrap fits', btn)
        check(same_values(df['cleaning_events'], ww @ mat('cleaning_events'), 1e-8), 'cleaning event probability')
        check(same_values(df['soiling_ratio'], best_df['soiling_ratio'].clip(0, 1), 1e-9), 'soiling ratio is not the one of the best fit')
        flat = np.concatenate([[False], np.diff(df['soiling_ratio']) == 0])
        er = np.where(flat, 0.0, best_df['soiling_rates'])
        check(same_values(df['soiling_rates'], er, 1e-9), 'soiling rates are not those of the best fit')
        rd = 1 + J * a.degradation[0] / 36500
        check(same_values(df['degradation_trend'], rd, 1e-9), 'degradation trend is not the line of the reported rate')
        sc = df['seasonal_component'].to_numpy(dtype=float)
        sl, sh = df['seasonal_low'].to_numpy(dtype=float), df['seasonal_high'].to_numpy(dtype=float)
        check((sl <= sh + 1e-12).all(), 'seasonal bounds not ordered')
        if c['sc'] == 'one':
            check(same_values(sc, np.ones(n), 1e-9) and same_values(sl, np.ones(n), 1e-9), 'seasonal component of flat fits is not one')
        else:
            check(np.isfinite(sc).all() and (np.abs(sc - 1) <= 1.75 * 0.042 + 1e-9).all() and np.ptp(sc) > 1e-4, 'seasonal component outside the perturbation range')
        tot = df['soiling_ratio'].to_numpy() * sc * rd
        res = pi.to_numpy() / tot
        check(same_values(df['residuals'], res, 1e-9), 'residuals')
        check(same_float(a.residual_shift, np.nanmean(res), 1e-9), 'residual shift')
        check(same_values(df['total_model'], tot * np.nanmean(res), 1e-9), 'total model')
        check(same_float(a.RMSE, math.sqrt(np.nanmean((tot * np.nanmean(res) - pi.to_numpy()) ** 2)), 1e-9), 'RMSE')
        check(len(a.initial_fits) == len(good) and all(snap(x) == snap(y[0]) for x, y in zip(a.initial_fits, good)), 'the stored initial fits were altered')
        if c['sc'] == 'one' and not c['nan']:
            # each bootstrap signal is one fitted model with its residuals in circular blocks of 90 days
            left = [d['total_model'].to_numpy() for kd, d, r, _ in fits if kd in ('ok', 'small')]
            for kd, d, r, x in reps:
                v = x.to_numpy(dtype=float)
                check(any(blocks(v / m, pi.to_numpy() / m, 90) for m in left), 'a bootstrap signal is not a fitted model with blocks of its residuals')
    if c['api'] == 'fn':
        sr, ci, dg, dci, rdf = out
        check(same_float(sr, 1 - a.soiling_loss[0] / 100) and same_values(ci, [1 - a.soiling_loss[1] / 100, 1 - a.soiling_loss[2] / 100]), 'soiling ratio of the wrapper')
        check(same_float(dg, a.degradation[0]) and same_values(dci, a.degradation[1:3]) and rdf is a.result_df, 'degradation of the wrapper')
    else:
        check(out[0] is a.result_df and out[1] is a.degradation and out[2] is a.soiling_loss, 'returned values differ from the attributes')
    obs.model()
    obs.outcome = [small, len(reps), round(float(a.degradation[0]), 6)]


def blocks(v, r, L):
    """is v a sequence of circular blocks of length L of r?"""
    n = len(r)
    for s in range(0, n, L):
        seg = v[s:s + L]
        if not any(same_values(seg, np.take(r, np.arange(p, p + len(seg)), mode='wrap'), 1e-9) for p in np.flatnonzero(np.isclose(r, seg[0], 1e-9))):
            return False
    return True


# --------------------------------------------------------------------------- rejected input
def gen_bad(tier):
    def body(ch):
        return {'how': ch.free('how', ['ok', 'nofreq', 'hourly', 'missing', 'two_daily', 'no_sr', 'empty_order', 'short', 'no_sr_stl'])}
    return body


def run_bad(c, obs):
    from rdtools.soiling import CODSAnalysis
    pi, _, _ = signal(dict(t0='2017-03-01', n=760, amp=.003, period=40, season=.03, rate=-1, noise=.02, scale=1, nans=[]))
    kw = {'max_iterations': 3}
    h = c['how']
    if h == 'nofreq':
        pi = pi.copy()
        pi.index = pd.DatetimeIndex(list(pi.index))
    elif h == 'hourly':
        pi.index = pd.date_range('2017-03-01', periods=760, freq='h')
    elif h == 'two_daily':
        pi.index = pd.date_range('2017-03-01', periods=760, freq='2D')
    elif h == 'missing':
        pi = pi.drop(pi.index[50])
    elif h == 'no_sr':
        kw['order'] = ('SC', 'Rd')
    elif h == 'no_sr_stl':
        kw.update(order=('SC', 'Rd'), degradation_method='STL')
    elif h == 'empty_order':
        kw['order'] = ()
    elif h == 'short':
        pi = pi.iloc[:300]
    call = lambda: CODSAnalysis(pi).iterative_signal_decomposition(**kw)  # noqa
    if h == 'ok':
        call()
    else:
        expect_raises(ValueError, call, h)
    obs.model()


def families(tier):
    q = tier == 'quick'
    return [{'name': 'bootstrap', 'gen': gen_bt(tier), 'run': run_bt, 'bound': 2 if q else 3},
            {'name': 'decomposition', 'gen': gen_dec(tier), 'run': run_dec, 'bound': 1 if q else 2},
            {'name': 'rejected', 'gen': gen_bad(tier), 'run': run_bad, 'bound': 0}]
