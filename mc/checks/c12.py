"""C12 pvlib_clearsky_filter == detect_clearsky with the documented parameters."""
import math

import numpy as np
import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = ['pvlib.clearsky.detect_clearsky is trusted; the check decides which data and parameters reach it, '
               'by comparing masks of probe days whose window statistics sweep across every threshold']
DEF = dict(window_length=90, mean_diff=75, max_diff=75, lower_line_length=-45, upper_line_length=80,
           var_diff=0.032, slope_dev=75)
TABLE = {'window_length': (50, 60, 90, 120), 'max_diff': (60, 65, 75, 90), 'var_diff': (0.005, 0.01, 0.032, 0.07),
         'slope_dev': (50, 60, 75, 96)}
AT = (1, 5, 15, 30)


def look(minutes):
    out = {}
    for k, y in TABLE.items():
        if minutes <= AT[0]:
            out[k] = float(y[0])
        elif minutes >= AT[-1]:
            out[k] = float(y[-1])
        else:
            i = max(j for j in range(4) if AT[j] <= minutes)
            i = min(i, 2)
            f = (minutes - AT[i]) / (AT[i + 1] - AT[i])
            out[k] = y[i] + (y[i + 1] - y[i]) * f
    return out


def probe(kind, amp, idx, clear):
    """measured irradiance: the clear-sky curve with disturbances of growing size during the day"""
    h = (idx - idx[0]) / pd.Timedelta('1h')
    h = np.asarray(h, float)
    c = clear.to_numpy()
    x = c.copy()
    # eight disturbances, centred every 1.25 h from 7 h, growing with the day
    for j in range(8):
        ctr = 7.2 + 1.25 * j
        a = amp * (j + 1) / 8
        w = np.abs(h - ctr)
        if kind == 'offset':
            x = x + np.where(w <= 0.55, a, 0)
        elif kind == 'spike':
            k = int(np.argmin(w))
            x[k] += a
        elif kind == 'dip':
            k = int(np.argmin(w))
            x[k] -= a
        elif kind == 'tri':
            x = x + np.where(w <= 0.6, a * (1 - w / 0.6), 0)
        elif kind == 'saw':
            m = w <= 0.6
            x = x + np.where(m, a * np.where(np.arange(len(h)) % 2 == 0, 1, -1), 0)
        elif kind == 'wave':
            x = x + np.where(w <= 0.6, a * np.sin((h - ctr) / 0.3 * math.pi), 0)
    if kind == 'scale':
        x = c * (1 + amp / 1000)
    if kind == 'flat':
        x = c + amp
    return pd.Series(np.maximum(x, 0), index=idx)


def gen(tier):
    def body(ch):
        amps = [60, 20, 100, 180] if tier == 'quick' else [60, 10, 20, 40, 80, 100, 130, 160, 200, 250, 400]
        return {'step': ch.free('step', [15, 1, 5, 30, 2, 10, 20, 60, 0.5] + ([3, 4, 7.5, 12, 25, 45] if tier != 'quick' else [])),
                'kind': ch.free('kind', ['offset', 'spike', 'dip', 'tri', 'saw', 'wave', 'scale', 'flat']),
                'amp': ch.free('amp', amps),
                'lookup': ch.free('lookup', [True, False]),
                'freq': ch.choose('freq', [True, False, 'only_clear']),
                'over': ch.choose('over', [None, {'mean_diff': 30}, {'lower_line_length': -5}, {'upper_line_length': 10},
                                           {'window_length': 60}, {'max_diff': 40}, {'var_diff': 0.01}, {'slope_dev': 30},
                                           {'infer_limits': True}, {'max_iterations': 1}, {'return_components': True},
                                           {'mean_diff': 200, 'max_diff': 200}, {'window_length': 200}]),
                'idx': ch.choose('idx', [None, 'meas_short', 'clear_short', 'nan_meas', 'nan_clear', 'shift']),
                'tz': ch.choose('tz', ['UTC', None, 'US/Mountain']),
                'via': ch.choose('via', ['direct', 'dispatch', 'model'])}
    return body


def run(case, obs):
    import pvlib
    from rdtools import filtering
    c = case
    if c['lookup'] and c['over'] and c['step'] in (0.5, 2, 3, 20) or (c['tz'] != 'UTC' and c['step'] < 5):
        raise Skip('reduced cross product')
    idx = pd.date_range('2020-06-01', periods=int(round(24 * 60 / c['step'])), freq=pd.Timedelta(minutes=c['step']), tz=c['tz'])
    h = np.asarray((idx - idx[0]) / pd.Timedelta('1h'), float)
    clear = pd.Series(np.where((h > 5.5) & (h < 18.5), 950 * np.sin(np.clip((h - 5.5) / 13, 0, 1) * math.pi) ** 1.2, 0), index=idx)
    meas = probe(c['kind'], c['amp'], idx, clear)
    if c['idx'] == 'meas_short':
        meas = meas.iloc[:int(len(meas) * 0.7)]
    elif c['idx'] == 'clear_short':
        clear = clear.iloc[:int(len(clear) * 0.7)]
    elif c['idx'] == 'shift':
        clear = clear.iloc[int(len(clear) * 0.3):]
        meas = meas.iloc[:int(len(meas) * 0.8)]
    elif c['idx'] == 'nan_meas':
        meas = meas.copy()
        meas.iloc[int(len(meas) * 0.45):int(len(meas) * 0.5)] = np.nan
    elif c['idx'] == 'nan_clear':
        clear = clear.copy()
        clear.iloc[int(len(clear) * 0.45):int(len(clear) * 0.5)] = np.nan
    known = True
    if c['freq'] in (False, 'only_clear'):
        meas.index = pd.DatetimeIndex(list(meas.index))
        known = False
        if c['freq'] is False:
            clear.index = pd.DatetimeIndex(list(clear.index))
    par = dict(DEF)
    extra = {}
    for k, v in (c['over'] or {}).items():
        if k in par:
            par[k] = v
        elif k != 'return_components':
            extra[k] = v
    if c['lookup'] and known:
        par.update(look(c['step']))
    u = sorted(set(ns_of(meas.index)) | set(ns_of(clear.index)))
    md, cd = dict(zip(ns_of(meas.index), meas)), dict(zip(ns_of(clear.index), clear))
    ui = mk_index(u, c['tz'])
    m, k = pd.Series([md.get(x, NaN) for x in u], index=ui), pd.Series([cd.get(x, NaN) for x in u], index=ui)
    try:
        exp, comp, alpha = pvlib.clearsky.detect_clearsky(m, k, return_components=True, **par, **extra)
    except Exception as e:     # the detector itself refuses (window too short ...)
        exp = e
    if not isinstance(exp, Exception):
        # distance of the (final-iteration) statistics from the thresholds
        near = np.zeros(len(u), bool)
        for nm, th in (('mean_diff', par['mean_diff']), ('max_diff', par['max_diff']), ('line_length', par['lower_line_length']),
                       ('line_length', par['upper_line_length']), ('slope_nstd', par['var_diff']), ('slope_max', par['slope_dev'])):
            with np.errstate(all='ignore'):
                near |= np.abs(np.asarray(comp[nm], float) - th) < 1e-9 * abs(th)
        if near.any():
            raise Skip('statistic at a threshold')
    kw = dict(c['over'] or {})
    if c['lookup']:
        kw['lookup_parameters'] = True
    if c['via'] == 'direct':
        f = lambda: filtering.pvlib_clearsky_filter(meas, clear, **kw)       # noqa
    elif c['via'] == 'dispatch':
        f = lambda: filtering.clearsky_filter(meas, clear, **kw)             # noqa
    else:
        f = lambda: filtering.clearsky_filter(meas, clear, model='pvlib', **kw)   # noqa
    if isinstance(exp, Exception):
        expect_raises(Exception, f, 'detector refuses: %s' % exp)
        obs.model()
        obs.outcome = 'refused'
        return
    got = f()
    check(isinstance(got, pd.Series), 'result is not a plain series but %s', type(got))
    expect_mask(got, ui, exp.to_numpy(), 'clear-sky mask')
    obs.model()
    obs.outcome = [int(exp.sum()), c['step'], len(exp)]


def families(tier):
    q = tier == 'quick'
    return [{'name': 'probe', 'gen': gen(tier), 'run': run, 'bound': 1 if q else 2}]
