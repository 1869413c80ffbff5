"""C26 clear-sky ambient temperature vs. an independent reference on a synthetic climatology.

The climatology file is not part of the source tree (rdtools/data is not checked in), so an in-memory HDF5 file with
the documented layout (temperature/day and temperature/night, [longitude, latitude, month], first column at the date
line, first row at the north pole) stands in for it: every pixel and month holds a distinct value.
"""
import io
import math

import h5py
import numpy as np
import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = ['climatology file layout: temperature/{day,night}[longitude, latitude, month], date line and north pole first',
               'half-way positions between two pixels are not judged',
               'seconds within the minute may be neglected in the hour of the day',
               'times are localized (documented)']

_REAL = h5py.File
_CACHE = {}


def climate(nlon, nlat, kind):
    """(day, night) arrays [lon, lat, month]"""
    i, j, k = np.meshgrid(np.arange(nlon), np.arange(nlat), np.arange(12), indexing='ij')
    if kind == 'flat':
        m = 0 * k
    elif kind == 'wave':
        m = 11 * np.cos((k - 6.3) / 12 * 2 * np.pi)
    else:                               # 'rough': no two months alike, abrupt changes
        m = np.array([3., -8, 5, 14, 1, 22, 17, -4, 9, 12, -11, 6])[k]
    day = 18 + m + 0.013 * i + 0.37 * j
    night = 6 + 0.8 * m + 0.011 * i + 0.21 * j + 0.3 * np.sin(k)
    return day, night


def install(nlon, nlat, kind, holes=()):
    """Let h5py.File open the synthetic climatology whatever the path"""
    key = (nlon, nlat, kind, tuple(holes))
    if key not in _CACHE:
        day, night = climate(nlon, nlat, kind)
        for (a, b, months) in holes:
            for m in months:
                day[a, b, m] = np.nan
                night[a, b, m] = np.nan
        buf = io.BytesIO()
        with _REAL(buf, 'w') as f:
            g = f.create_group('temperature')
            g['day'] = day
            g['night'] = night
        _CACHE[key] = (day, night, buf.getvalue())
    day, night, raw = _CACHE[key]
    _CACHE['raw'] = raw
    import rdtools.clearsky_temperature as m
    h5py.File = _fake
    for k, v in list(vars(m).items()):
        if v is _REAL:
            setattr(m, k, _fake)
    return day, night


def _fake(*a, **k):
    name = a[0] if a else k.get('name', '')
    if 'pvlib' in str(name):
        return _REAL(*a, **k)
    return _REAL(io.BytesIO(_CACHE['raw']), 'r')


def call(*a, **k):
    from rdtools.clearsky_temperature import get_clearsky_tamb
    return with_warnings(lambda: get_clearsky_tamb(*a, **k))


def pixel(nlon, nlat, lat, lon):
    """nearest pixel, None when half-way"""
    x = (lon + 180.0) / (360.0 / nlon)
    y = (90.0 - lat) / (180.0 / nlat)
    if abs(x - math.floor(x) - 0.5) < 1e-9 or (abs(y - math.floor(y) - 0.5) < 1e-9 and y < nlat - 1):
        return None
    return int(math.floor(x + 0.5)) % nlon, min(int(math.floor(y + 0.5)), nlat - 1)


_SM = {}


def smooth(pix, first, last, window, std):
    """dict date -> smoothed (day, night); gaussian weights over `window` days centred on the date"""
    day, night = pix
    w = np.array([math.exp(-0.5 * ((n - (window - 1) / 2.0) / std) ** 2) for n in range(window)])
    left = window // 2
    days = pd.date_range(first - pd.Timedelta(days=left), last + pd.Timedelta(days=window), freq='D')
    m = days.month.to_numpy() - 1
    D, N = np.asarray(day)[m], np.asarray(night)[m]
    out = {}
    for q in range((last - first).days + 1):
        a, b = D[q:q + window], N[q:q + window]
        ok = ~(np.isnan(a) | np.isnan(b))
        sw = float(w[ok].sum())
        if sw:
            out[days[q + left]] = (float((w * a)[ok].sum()) / sw, float((w * b)[ok].sum()) / sw, bool(ok.all()))
        else:
            out[days[q + left]] = (NaN, NaN, False)
    return out


def midnight(d, tz):
    return d.tz_localize(tz, ambiguous=True, nonexistent='shift_forward')


def reference(times, pix, lon, window, std):
    """per time: expected value, slack of the daily values around it, all data there"""
    tz = times.tz
    d0 = pd.Timestamp(times[0].date()) - pd.Timedelta(days=1)
    d1 = pd.Timestamp(times[-1].date()) + pd.Timedelta(days=2)
    sm = smooth(pix, d0, d1, window, std)
    mid = {d: midnight(d, tz).value for d in sm}
    out = []
    loc = times.tz_localize(None).normalize()
    for t, d in zip(times, loc.as_unit('ns')):
        n = d + pd.Timedelta(days=1)
        if t.value < mid[d]:
            d, n = d - pd.Timedelta(days=1), d
        f = (t.value - mid[d]) / (mid[n] - mid[d])
        a, b, prev = sm[d], sm[n], sm.get(d - pd.Timedelta(days=1), sm[d])
        nxt = sm.get(n + pd.Timedelta(days=1), sm[n])
        ok = a[2] and b[2]
        dd = a[0] + f * (b[0] - a[0])
        nn = a[1] + f * (b[1] - a[1])
        solar = (t.value / 3.6e12) + lon / 15.0
        T = (dd + nn) / 2 + 0.35 * (dd - nn) * math.cos(2 * math.pi * (solar - 16.0) / 24.0)
        near = [prev, a, b, nxt]
        slack = max(abs(p[i] - q[i]) for i in (0, 1) for p in near for q in near)
        out.append((T, slack, ok, min(min(p[:2]) for p in near), max(max(p[:2]) for p in near)))
    return out


def judge(times, got, ref, exact, what):
    check(isinstance(got, pd.Series), '%s: result is not a Series', what)
    check(len(got) == len(times) and got.index.equals(times), '%s: result is not on the given times', what)
    v = got.to_numpy(dtype=float)
    for i, (T, slack, ok, lo, hi) in enumerate(ref):
        if not ok:
            if not math.isnan(v[i]) and not (math.isnan(lo) or lo - 15 <= v[i] <= hi + 15):
                fail('%s: %s at %s is far from any value', what, v[i], times[i])
            continue
        tol = 1e-7 if exact else 0.003 * abs(hi - lo) + 1e-7
        check(not math.isnan(v[i]), '%s: NaN at %s where the climatology has data', what, times[i])
        check(abs(v[i] - T) <= tol, '%s: %.6f at %s, expected %.6f (tolerance %.3g)', what, v[i], times[i], T, tol)
        check(lo - 1e-7 <= v[i] <= hi + 1e-7, '%s: %s at %s is outside the day and night values', what, v[i], times[i])


# ------------------------------------------------------------------ positions on the globe
LATS = [40.0, 90.0, 89.9, 87.4, 61.3, 0.0, 0.1, -0.1, -33.3, -61.2, -87.4, -87.6, -89.9, -90.0]
LONS = [-105.2, -180.0, -179.9, -177.6, -177.4, -92.4, -1.3, 0.0, 1.3, 91.1, 120.2, 177.4, 177.6, 179.9, 179.999, 180.0]


def gen_globe(tier):
    def body(ch):
        return {'lat': ch.free('lat', LATS), 'lon': ch.free('lon', LONS), 'grid': ch.free('grid', [[72, 36], [8, 4], [3600 // 10, 180], [5, 3]]),
                'start': ch.choose('start', ['2021-06-10', '2020-12-31', '2020-02-28']),
                'num': ch.choose('num', ['float', 'numpy'])}
    return body


def run_globe(case, obs):
    nlon, nlat = case['grid']
    p = pixel(nlon, nlat, case['lat'], case['lon'])
    if p is None:
        raise Skip('half-way between pixels')
    day, night = install(nlon, nlat, 'wave')
    times = pd.date_range(case['start'], periods=30, freq='h', tz='UTC')
    lat, lon = case['lat'], case['lon']
    if case['num'] == 'numpy':
        lat, lon = np.float64(lat), np.float64(lon)
    w = call(times, lat, lon)
    ref = reference(times, (day[p[0], p[1]], night[p[0], p[1]]), case['lon'], 40, 20)
    judge(times, w.result, ref, True, 'temperature at %s, %s' % (case['lat'], case['lon']))
    check(not w.any(UserWarning), 'a warning although the data are complete: %s', [str(x.message) for x in w.warnings])
    obs.model()
    obs.outcome = [round(float(x), 6) for x in w.result.iloc[:3]]


# ------------------------------------------------------------------ times
TZS = ['Etc/GMT+7', 'UTC', 'America/Denver', 'America/Santiago', 'America/Havana', 'Atlantic/Azores', 'Asia/Kolkata',
       'Australia/Lord_Howe', 'Asia/Shanghai', 'Asia/Beirut', 'fixed+5']
STARTS = ['2019-06-12', '2019-12-29', '2020-02-26', '2018-11-01', '2018-10-26', '2019-03-08', '2019-03-29', '2018-08-10', '2019-03-22']


def gen_times(tier):
    big = tier != 'quick'

    def body(ch):
        return {'tz': ch.free('tz', TZS), 'start': ch.free('start', STARTS if big else STARTS[:7]),
                'freq': ch.choose('freq', ['h', '15min', '30min', 'D', '2h', '90min', '7h', '2D', '10min', 'W', 'MS', '5min']),
                'off': ch.choose('off', ['00:00', '10:00', '00:07:00', '23:45', '13:20']),
                'noattr': ch.choose('noattr', [False, True]), 'unit': ch.choose('unit', ['ns', 's']),
                'n': ch.choose('n', [0, 1, 2, 3]),
                'lon': ch.choose('lon', [-105.2, 0.1, 116.4, 179.9]),
                'win': ch.choose('win', [[40, 20], [1, 20], [7, 3], [60, 5], [41, 20], [40, 2]]),
                'kind': ch.choose('kind', ['wave', 'rough', 'flat'])}
    return body


def run_times(case, obs):
    tz = pd.Timestamp('2020-01-01T00:00+05:00').tz if case['tz'] == 'fixed+5' else case['tz']
    fr = case['freq']
    span = {'W': 10, 'MS': 8, 'D': 12, '2D': 14}.get(fr, None)
    step = pd.Timedelta({'h': '1h', 'D': '1D', 'W': '7D', 'MS': '31D'}.get(fr, fr))
    n = case['n'] or span or min(150, int(pd.Timedelta('9D') / step))
    try:
        times = pd.date_range(case['start'] + ' ' + case['off'], periods=n, freq=fr, tz=tz)
    except Exception:
        raise Skip('no such index')
    if case['noattr']:
        times = pd.DatetimeIndex(list(times))
    if case['unit'] != 'ns':
        times = times.as_unit(case['unit'])
    lat, lon = 40.0, case['lon']
    day, night = install(72, 36, case['kind'])
    p = pixel(72, 36, lat, lon)
    win, std = case['win']
    kw = {} if case['win'] == [40, 20] else dict(window_size=win, gauss_std=std)
    w = call(times, lat, lon, **kw)
    ref = reference(times, (day[p[0], p[1]], night[p[0], p[1]]), lon, win, std)
    judge(times, w.result, ref, True, 'temperature')
    check(not w.any(UserWarning, 'nan'), 'NaN warning although the data are complete')
    # the same instants expressed in another zone: only the daily smoothing may shift
    if fr in ('h', '15min', '30min'):
        other = call(times.tz_convert('Etc/GMT-3'), lat, lon, **kw)
        d = np.abs(other.result.to_numpy() - w.result.to_numpy())
        lim = max(r[1] for r in ref) * 2 + 1e-6
        check(bool((d <= lim).all()), 'same instants in another zone differ by %s (limit %s)', d.max(), lim)
    obs.model()
    obs.outcome = [round(float(x), 5) for x in w.result.iloc[:4]]


# ------------------------------------------------------------------ whole years
def gen_year(tier):
    def body(ch):
        return {'tz': ch.free('tz', TZS), 'freq': ch.free('freq', ['h', '2h', '3h', '6h', '12h', 'D', '5h', '45min']),
                'kind': ch.choose('kind', ['rough', 'wave']), 'start': ch.choose('start', ['2019-01-01', '2018-06-15', '2020-01-01'])}
    return body


def run_year(case, obs):
    tz = pd.Timestamp('2020-01-01T00:00+05:00').tz if case['tz'] == 'fixed+5' else case['tz']
    step = pd.Timedelta({'h': '1h', 'D': '1D'}.get(case['freq'], case['freq']))
    t0 = pd.Timestamp(case['start'], tz=tz)
    times = pd.DatetimeIndex([t0 + i * step for i in range(int(pd.Timedelta('400D') / step))])
    day, night = install(72, 36, case['kind'])
    lat, lon = 40.0, -27.9
    p = pixel(72, 36, lat, lon)
    w = call(times, lat, lon)
    check(w.result.index.equals(times), 'result is not on the given times')
    pick = list(range(0, len(times), max(1, len(times) // 150)))
    sub = times[pick]
    ref = reference(sub, (day[p[0], p[1]], night[p[0], p[1]]), lon, 40, 20)
    judge(sub, w.result.iloc[pick], ref, True, 'temperature of a whole year')
    check(w.result.notna().all(), 'NaN where the climatology has data')
    obs.model()
    obs.outcome = [round(float(x), 5) for x in w.result.iloc[pick[:4]]]


# ------------------------------------------------------------------ gaps and irregular times
def gen_irr(tier):
    def body(ch):
        return {'shape': ch.free('shape', ['gap_late', 'gap_early', 'random', 'daylight', 'dup_days', 'jitter', 'every_third', 'two_gaps', 'repeat']),
                'tz': ch.free('tz', ['Etc/GMT+7', 'America/Denver', 'Atlantic/Azores']),
                'start': ch.free('start', ['2019-06-12', '2018-10-26', '2019-12-20']),
                'step': ch.choose('step', ['15min', 'h', '5min']), 'kind': ch.choose('kind', ['wave', 'rough'])}
    return body


def run_irr(case, obs):
    base = pd.date_range(case['start'], periods=200, freq=case['step'], tz=case['tz'])
    s = case['shape']
    k = np.arange(200)
    keep = {'gap_late': (k < 80) | (k > 120), 'gap_early': k != 4, 'random': (k * 7919 % 13) > 5, 'daylight': (base.hour > 6) & (base.hour < 19),
            'dup_days': (k % 96) < 40, 'jitter': k >= 0, 'every_third': k % 3 == 0, 'two_gaps': ~np.isin(k, [2, 3, 50]), 'repeat': k % 5 != 2}[s]
    times = base[keep]
    if s == 'repeat':
        times = pd.DatetimeIndex(sorted(list(times) + list(times[5:9])))
    elif s == 'jitter':
        times = pd.DatetimeIndex([t + pd.Timedelta(seconds=int((i * 37) % 60)) for i, t in enumerate(times)])
    else:
        times = pd.DatetimeIndex(list(times))
    lat, lon = -12.1, 30.3
    day, night = install(72, 36, case['kind'])
    p = pixel(72, 36, lat, lon)
    w = call(times, lat, lon)
    ref = reference(times, (day[p[0], p[1]], night[p[0], p[1]]), lon, 40, 20)
    judge(times, w.result, ref, s != 'jitter', 'temperature at irregular times')
    check(not w.any(UserWarning, 'nan'), 'NaN warning although the data are complete')
    obs.model()
    obs.outcome = [round(float(x), 5) for x in w.result.iloc[:4]]


# ------------------------------------------------------------------ missing data
HOLE = (15, 10)


def gen_holes(tier):
    def body(ch):
        return {'at': ch.free('at', ['hole', 'east', 'west', 'north', 'south', 'edge_lon', 'pole']),
                'months': ch.free('months', ['all', 'winter', 'june']),
                'start': ch.free('start', ['2019-06-12', '2019-12-29', '2019-09-20', '2019-04-18']),
                'freq': ch.choose('freq', ['h', '15min', 'D', '120D']), 'tz': ch.choose('tz', ['UTC', 'America/Denver'])}
    return body


def run_holes(case, obs):
    months = {'all': tuple(range(12)), 'winter': (10, 11, 0, 1), 'june': (5,)}[case['months']]
    at = case['at']
    holes = [(HOLE[0], HOLE[1], months), (0, 12, months), (30, 35, months)]
    day, night = install(72, 36, 'wave', holes)
    c = {'hole': HOLE, 'east': (HOLE[0] + 1, HOLE[1]), 'west': (HOLE[0] - 1, HOLE[1]), 'north': (HOLE[0], HOLE[1] - 1),
         'south': (HOLE[0], HOLE[1] + 1), 'edge_lon': (0, 12), 'pole': (30, 35)}[at]
    lon = c[0] * 5.0 - 180.0 + (0.7 if at != 'edge_lon' else -0.7)
    lat = 90.0 - c[1] * 5.0 + 0.4
    if at == 'edge_lon':
        lon = 179.3
    if at == 'pole':
        lat = -89.0
    assert pixel(72, 36, lat, lon) == c, (lat, lon, c)
    n, fr = {'D': (10, 'D'), '120D': (120, 'D')}.get(case['freq'], (60, case['freq']))
    times = pd.date_range(case['start'], periods=n, freq=fr, tz=case['tz'])
    w = call(times, lat, lon)
    got = w.result
    check(got.index.equals(times), 'result is not on the given times')
    if at in ('hole', 'edge_lon', 'pole') and case['months'] == 'all':
        check(got.isna().all(), 'a value where the climatology has no data: %s', got.dropna().iloc[:3].tolist())
        check(w.any(UserWarning, 'nan'), 'no warning although the result has NaN')
    else:
        ref = reference(times, (day[c[0], c[1]], night[c[0], c[1]]), lon, 40, 20)
        judge(times, got, ref, True, 'temperature next to a pixel without data')
    if got.isna().any():
        check(w.any(UserWarning), 'no warning although the result has NaN')
    obs.model()
    obs.outcome = [None if isnan(float(x)) else round(float(x), 5) for x in got.iloc[:4]]


# ------------------------------------------------------------------ used by TrendAnalysis
def gen_ta(tier):
    def body(ch):
        return {'tz': ch.free('tz', ['Etc/GMT+7', 'America/Denver']), 'step': ch.free('step', [1.0, 0.5]),
                'lat': ch.free('lat', [39.7, -33.2]), 'lon': ch.free('lon', [-105.2, 151.1]),
                'start': ch.free('start', ['2020-06-01', '2020-12-20'])}
    return body


def run_ta(case, obs):
    import pvlib
    from mc import ta as T
    from rdtools import TrendAnalysis
    d = T.data(days=8, step_h=case['step'], tz=case['tz'], start=case['start'])
    a = TrendAnalysis(d['pv'], d['poa'], temperature_cell=d['tcell'], gamma_pdc=-0.004, power_dc_rated=5000.0,
                      aggregation_freq='D', interp_freq='%dmin' % round(60 * case['step']))
    a.set_clearsky(pvlib_location=pvlib.location.Location(case['lat'], case['lon'], tz=case['tz']), pv_azimuth=180, pv_tilt=20,
                   poa_global_clearsky=d['clear'])
    a.filter_params = {'normalized_filter': {}}
    a.filter_params_aggregated = {}
    day, night = install(72, 36, 'rough')
    with_warnings(lambda: a.clearsky_analysis(analyses=[]))
    got = a.temperature_ambient_clearsky
    p = pixel(72, 36, case['lat'], case['lon'])
    times = got.index
    ref = reference(times, (day[p[0], p[1]], night[p[0], p[1]]), case['lon'], 40, 20)
    judge(times, got, ref, True, 'clear-sky ambient temperature of TrendAnalysis')
    obs.model()
    obs.outcome = [round(float(x), 5) for x in got.iloc[:4]]


def families(tier):
    big = tier != 'quick'
    return [dict(name='globe', gen=gen_globe(tier), run=run_globe, bound=2 if big else 1),
            dict(name='times', gen=gen_times(tier), run=run_times, bound=2 if big else 1),
            dict(name='year', gen=gen_year(tier), run=run_year, bound=2 if big else 1),
            dict(name='irregular', gen=gen_irr(tier), run=run_irr, bound=2 if big else 1),
            dict(name='holes', gen=gen_holes(tier), run=run_holes, bound=2),
            dict(name='trend_analysis', gen=gen_ta(tier), run=run_ta, bound=1)]
