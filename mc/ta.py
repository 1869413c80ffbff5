"""Synthetic system data and a step-by-step reference pipeline for TrendAnalysis harnesses."""
import math
import warnings

import numpy as np
import pandas as pd


def data(days=14, step_h=1.0, tz='Etc/GMT+7', start='2020-06-01', rated=5000.0, rd=0.0, messy=True, year_wave=False):
    """dict of series on one regular grid"""
    idx = pd.date_range(start, periods=int(round(days * 24 / step_h)), freq=pd.Timedelta(hours=step_h), tz=tz)
    if tz is not None:
        loc = idx.tz_localize(None)
    else:
        loc = idx
    h = (loc - loc.normalize()) / pd.Timedelta('1h')
    h = np.asarray(h, float)
    d = np.asarray((loc.normalize() - loc[0].normalize()).days)
    sun = np.clip(np.sin((h - 5.3) / 13.4 * math.pi), 0, None) * ((h > 5.3) & (h < 18.7))
    clear = 960.0 * sun ** 1.15
    cloud = 1 - 0.45 * ((d % 5 == 2) & (h > 10) & (h < 15)) - 0.2 * ((d * 7 + np.floor(h)) % 11 == 3)
    poa = clear * cloud * (1 + 0.01 * np.sin(d * 1.7))
    tamb = 12 + 9 * np.sin((h - 9) / 24 * 2 * math.pi) + (d % 6)
    wind = 1.0 + (d % 4) + 0.5 * np.sin(h)
    tcell = tamb + poa * 0.028
    years = np.asarray((idx - idx[0]) / pd.Timedelta('365d'), float)
    dayf = 1 + 0.012 * np.sin(d * 2.3) - 0.14 * (d % 13 == 8) + 0.09 * (d % 17 == 5) + rd * years
    pv = rated * poa / 1000 * (1 - 0.004 * (tcell - 25)) * dayf
    lim = np.where(d % 4 == 3, 0.68 * rated, np.inf)
    pv = np.minimum(pv, lim)
    if messy:
        k = np.arange(len(idx))
        pv = np.where((d % 9 == 4) & (np.floor(h) == 9), 0.0, pv)
        poa = np.where((d % 10 == 6) & (np.floor(h) == 12), 1250.0, poa)
        tcell = np.where((d % 7 == 1) & (np.floor(h) == 13), 120.0, tcell)
        tcell = np.where((d % 7 == 5) & (np.floor(h) == 8), -60.0, tcell)
        poa = np.where((d % 11 == 9) & (np.floor(h) == 10), np.nan, poa)
        del k
    S = lambda x, n: pd.Series(x, index=idx, name=n)   # noqa
    return dict(pv=S(pv, 'pv'), poa=S(poa, 'poa'), tcell=S(tcell, 'tcell'), tamb=S(tamb, 'tamb'), wind=S(wind, 'wind'),
                clear=S(clear * 1.02, 'clear'), tcell_cs=S(tamb + clear * 0.03, 'tcs'), tamb_cs=S(tamb + 1.0, 'tacs'),
                expected=S(rated * poa / 1000 * 0.97, 'exp'))


def masks(filter_params, en, d, case):
    """AND of the configured filters, each on its documented input, at the times of en; dict of components"""
    from rdtools import filtering as F
    comp = {}
    poa = d['poa'] if case == 'sensor' else d['clear']
    tc = d['tcell'] if case == 'sensor' else d['tcell_cs']
    for name, kw in filter_params.items():
        if name == 'normalized_filter':
            m = F.normalized_filter(en, **kw)
        elif name == 'poa_filter':
            m = F.poa_filter(poa, **kw)
        elif name == 'tcell_filter':
            m = F.tcell_filter(tc, **kw)
        elif name == 'clip_filter':
            m = F.clip_filter(d['pv'], **kw)
        elif name == 'hour_angle_filter':
            m = F.hour_angle_filter(en, d['lat'], d['lon'], **kw)
        elif name == 'clearsky_filter':
            if case != 'clearsky':
                continue
            m = F.clearsky_filter(d['poa'], d['clear'], **kw)
        elif name == 'sensor_clearsky_filter':
            if case != 'sensor':
                continue
            m = F.clearsky_filter(d['poa'], d['clear'], **kw)
        elif name == 'ad_hoc_filter':
            if kw is None:
                continue
            m = None
        else:
            raise AssertionError(name)
        comp[name] = adhoc(kw, en.index) if m is None else [bool(m.get(t, False)) for t in en.index]
    out = [all(c[i] for c in comp.values()) for i in range(len(en))]
    return out, comp


def adhoc(mask, index):
    """NaN -> False, absent -> True"""
    dd = {t.value: v for t, v in zip(mask.index, mask.to_numpy())}
    out = []
    for t in index:
        if t.value not in dd:
            out.append(True)
        else:
            v = dd[t.value]
            out.append(False if v is None or (isinstance(v, float) and math.isnan(v)) else bool(v))
    return out


def agg_masks(params, agg, insol):
    from rdtools import filtering as F
    comp = {}
    for name, kw in params.items():
        if name == 'two_way_window_filter':
            m = F.two_way_window_filter(agg, **kw)
        elif name == 'insolation_filter':
            m = F.insolation_filter(insol, **kw)
        elif name == 'hampel_filter':
            m = F.hampel_filter(agg, **kw)
        elif name == 'directional_tukey_filter':
            m = F.directional_tukey_filter(agg, **kw)
        elif kw is None:
            continue
        else:
            comp[name] = adhoc(kw, agg.index)
            continue
        comp[name] = [bool(x) for x in m]
    return [all(c[i] for c in comp.values()) for i in range(len(agg))], comp


def norm(energy, poa, tcell, gamma, rated, expected=None):
    from rdtools import normalize_with_pvwatts, normalize_with_expected_power
    from rdtools.utilities import robust_quantile
    if expected is not None:
        return normalize_with_expected_power(energy, expected, poa, pv_input='energy')
    kws = dict(poa_global=poa, power_dc_rated=1.0 if rated is None else rated, temperature_cell=tcell,
               poa_global_ref=1000, temperature_cell_ref=25, gamma_pdc=gamma)
    en, ins = normalize_with_pvwatts(energy, kws)
    if rated is None:
        en = en / robust_quantile(en[np.isfinite(en)], 0.95)
    return en, ins
