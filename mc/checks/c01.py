"""C01 energy_from_power == exact integral with gap rules (all slot patterns x options)."""
import math

import pandas as pd

from mc import models
from mc.lib import *  # noqa
from mc.core import Violation

ASSUMPTIONS = [
    'input index sorted and unique (documented domain)',
    'values from a fixed alphabet; patterns of valid/NaN/missing slots enumerated up to the deviation bound',
    'calendar bin labels taken from pandas.resample (trusted)',
]

STEP = 15 * MIN
VALUES = [3.0, 7.0, 2.0, 11.0, 5.0, 0.0, 13.0, 1.0, 6.0, 4.0, 9.0, 8.0]
STARTS = {
    'naive': (None, '2020-01-01 00:00'),
    'offgrid': (None, '2021-03-05 10:07'),
    'utc': ('UTC', '2020-06-01 23:00'),
    'spring': ('US/Eastern', '2020-03-08 06:15'),     # crosses 2:00 -> 3:00 at 07:00 UTC
    'fall': ('US/Eastern', '2020-11-01 05:00'),       # repeated hour at 06:00 UTC
    'kolkata': ('Asia/Kolkata', '2020-01-01 18:20'),
}
FREQS = [None, '15min', '5min', '10min', '20min', '30min', '45min', '1h']
FREQ_NS = {'15min': 15 * MIN, '5min': 5 * MIN, '10min': 10 * MIN, '20min': 20 * MIN, '30min': 30 * MIN,
           '45min': 45 * MIN, '1h': 60 * MIN, '7min': 7 * MIN, '37min': 37 * MIN, '2h': 120 * MIN}
MAXTD = [None, 15, 30, 45, 29, 14]


def gen(tier, slots_only):
    full = 7 if tier == 'quick' else 9

    def body(ch):
        n = ch.free('n', [full, 2, 3]) if slots_only else full
        slots = ''.join(ch.choose('slot%d' % i, 'VNM' if i not in (0,) else 'VN') for i in range(n))
        return {'slots': slots,
                'freq': ch.free('freq', FREQS + ([] if tier == 'quick' else ['7min', '37min', '2h'])),
                'max': ch.free('max', MAXTD[:4] if tier == 'quick' else MAXTD),
                'ptype': ch.free('ptype', ['right_labeled', 'instantaneous']),
                **({'start': 'naive', 'unit': 'ns', 'dtype': 'float', 'attach': True, 'shift': None,
                    'offset': False, 'vals': 0} if slots_only else {}),
                **({} if slots_only else variants(ch))}
    return body


def variants(ch):
    return {    'start': ch.choose('start', list(STARTS)),
                'unit': ch.choose('unit', ['ns', 'us', 's']),
                'dtype': ch.choose('dtype', ['float', 'int', 'float32']),
                'attach': ch.choose('attach', [True, False]),
                'shift': ch.choose('shift', [None, [2, 7], [4, -4], [1, 14]]),
                'offset': ch.choose('as_offset', [False, True]),
                'vals': ch.choose('vals', [0, 1, 2])}


def build(case):
    tz, start = STARTS[case['start']]
    t0 = pd.Timestamp(start).value
    ts_, vs = [], []
    for i, c in enumerate(case['slots']):
        if c == 'M':
            continue
        t = t0 + i * STEP
        if case['shift'] and case['shift'][0] == i:
            t += case['shift'][1] * MIN
        v = VALUES[(i + 3 * case['vals']) % len(VALUES)]
        if case['vals'] == 2:
            v = -v if i % 2 else v
        ts_.append(t)
        vs.append(NaN if c == 'N' else v)
    idx = mk_index(ts_, tz, case['unit'], 'infer' if case['attach'] and 'M' not in case['slots'] else None)
    s = pd.Series(vs, index=idx, name='p')
    if case['dtype'] == 'int':
        if any(isnan(v) for v in vs):
            raise Skip('int with NaN')
        s = s.astype(int)
    elif case['dtype'] == 'float32':
        s = s.astype('float32')
    return s, ts_, vs


def run(case, obs):
    from rdtools import energy_from_power
    s, t, v = build(case)
    if len(t) < 2:
        raise Skip('short')
    kw = {'power_type': case['ptype']}
    f = case['freq']
    if f is not None:
        kw['target_frequency'] = pd.tseries.frequencies.to_offset(f) if case['offset'] else f
    if case['max'] is not None:
        kw['max_timedelta'] = pd.Timedelta(minutes=case['max'])
    labels, exp = models.energy(t, v, None if f is None else FREQ_NS[f],
                                None if case['max'] is None else case['max'] * MIN, case['ptype'])
    got = energy_from_power(s, **kw)
    expect_series(got, labels, exp, 'energy', rtol=1e-6 if case['dtype'] == 'float32' else 1e-9)
    check(got.index.tz == s.index.tz or str(got.index.tz) == str(s.index.tz), 'time zone changed: %s', got.index.tz)
    # the calling convention must not matter
    obs.model()
    obs.outcome = [round(x, 6) if not isnan(x) else None for x in exp]


# ---- calendar frequencies and long records
def gen_cal(tier):
    def body(ch):
        return {'freq': ch.free('freq', ['D', 'MS', '7D', '2D', '12h']),
                'step_h': ch.free('step', [6, 24, 8, 696, 720]),
                'tz': ch.free('tz', [None, 'US/Eastern', 'Australia/Sydney']),
                'start': ch.free('start', ['2020-02-27', '2021-01-01', '2020-03-06', '2020-10-30 12:00', '2020-12-29']),
                'ptype': ch.free('ptype', ['right_labeled', 'instantaneous']),
                'hole': ch.choose('hole', [None, [3, 1], [3, 2], [0, 2], [7, 3], [30, 4]]),
                'kind': ch.choose('kind', ['N', 'M']),
                'max_h': ch.choose('max', [None, 24, 48, 960])}
    return body


def run_cal(case, obs):
    from rdtools import energy_from_power
    n = 14 if case['step_h'] > 24 else 45 if case['step_h'] == 24 else 40
    if case['step_h'] > 24 and case['freq'] not in ('MS', '7D'):
        raise Skip('fine targets of monthly data')
    idx = pd.date_range(case['start'], periods=n, freq='%dh' % case['step_h'])
    if case['tz']:
        idx = idx.tz_localize(case['tz'], ambiguous=True, nonexistent='shift_forward')
        idx = idx[~idx.duplicated()]
    vals = [float((7 * i) % 11 + 1) for i in range(len(idx))]
    if case['hole']:
        a, k = case['hole']
        if a + k >= len(idx):
            raise Skip()
        if case['kind'] == 'N':
            for i in range(a, a + k):
                vals[i] = NaN
        else:
            keep = [i for i in range(len(idx)) if not a <= i < a + k]
            idx = idx[keep]
            vals = [vals[i] for i in keep]
    t = ns_of(idx)
    med = median([b - a for a, b in zip(t, t[1:])])
    f = case['freq']
    off = pd.tseries.frequencies.to_offset(f)
    try:
        fns = off.nanos
    except ValueError:
        dr = ns_of(pd.date_range(idx[0], idx[-1], freq=f))
        fns = median([b - a for a, b in zip(dr, dr[1:])])
    s = pd.Series(vals, index=idx)
    if isnan(fns):
        raise Skip('record shorter than the target interval')
    if fns <= med:
        grid = ns_of(pd.date_range(idx[0], idx[-1], freq=f))
        if not grid or grid[0] != t[0] or len(grid) < 2:
            raise Skip('calendar grid does not start with the data')
        labels = None
    else:
        grid = None
        labels = ns_of(pd.Series(0.0, index=idx).resample(f, closed='right', label='right', origin='start')
                       .sum().index)
        first = labels[0]
        labels = labels[1:]
        if first != t[0]:
            # the incomplete leading calendar interval is not reported
            pass
    kw = {} if case['max_h'] is None else {'max_timedelta': pd.Timedelta(hours=case['max_h'])}
    mx = None if case['max_h'] is None else case['max_h'] * HOUR
    if fns > med and first != t[0]:
        lab2, exp = models.energy(t, vals, fns, mx, case['ptype'], labels=[first] + labels)
        lab2, exp = lab2[1:], exp[1:]
    else:
        lab2, exp = models.energy(t, vals, fns, mx, case['ptype'], labels=labels, grid=grid)
    got = energy_from_power(s, f, power_type=case['ptype'], **kw)
    if f == 'MS' and len(got) > len(lab2):
        # pandas appends empty calendar bins after the data; they carry no energy
        check(got.iloc[len(lab2):].isna().all(), 'energy after the end of the data: %s', got.iloc[len(lab2):])
        got = got.iloc[:len(lab2)]
    expect_series(got, lab2, exp, 'energy (%s)' % f)
    obs.model()
    obs.outcome = exp


# ---- one-element series and rejected inputs
def gen_edge(tier):
    def body(ch):
        return {'what': ch.free('what', ['one_freq', 'one_target', 'one_both', 'one_nothing', 'one_inst', 'one_nonfixed',
                                         'rangeindex', 'bad_type', 'bad_type_coarse', 'empty', 'one_nan', 'one_int',
                                         'label_only_gap']),
                'freq': ch.free('freq', ['15min', '1h', 'D', '7min']),
                'val': ch.free('val', [100.0, 0.0, -3.5]),
                'tz': ch.free('tz', [None, 'US/Eastern'])}
    return body


def run_edge(case, obs):
    from rdtools import energy_from_power
    w, f, v = case['what'], case['freq'], case['val']
    ns = pd.tseries.frequencies.to_offset(f).nanos
    one = pd.Series([v], index=pd.date_range('2020-01-01', periods=1, freq=f, tz=case['tz']))
    nofreq = one.copy()
    nofreq.index = pd.DatetimeIndex(list(one.index))
    two = pd.Series([v, v + 1, v + 2], index=pd.date_range('2020-01-01', periods=3, freq='15min', tz=case['tz']))
    if w == 'one_freq':
        got = energy_from_power(one)
        expect_series(got, ns_of(one.index), [v * ns / 3.6e12], 'one element')
    elif w == 'one_target':
        got = energy_from_power(nofreq, f)
        expect_series(got, ns_of(one.index), [v * ns / 3.6e12], 'one element')
    elif w == 'one_both':
        got = energy_from_power(one, '2h')
        expect_series(got, ns_of(one.index), [v * 2], 'one element, target overrides attached freq')
    elif w == 'one_nan':
        got = energy_from_power(pd.Series([NaN], index=one.index))
        expect_series(got, ns_of(one.index), [NaN], 'one element')
    elif w == 'one_int':
        got = energy_from_power(pd.Series([int(v) + 3], index=one.index), max_timedelta=pd.Timedelta('1s'))
        expect_series(got, ns_of(one.index), [(int(v) + 3) * ns / 3.6e12], 'one element')
    elif w == 'one_nothing':
        expect_raises(ValueError, lambda: energy_from_power(nofreq), 'no period')
    elif w == 'one_inst':
        expect_raises(ValueError, lambda: energy_from_power(one, power_type='instantaneous'), 'one instantaneous')
        expect_raises(ValueError, lambda: energy_from_power(one, f, power_type='instantaneous'), 'one instantaneous')
    elif w == 'one_nonfixed':
        expect_raises(ValueError, lambda: energy_from_power(nofreq, 'MS'), 'non-fixed')
    elif w == 'rangeindex':
        expect_raises(ValueError, lambda: energy_from_power(pd.Series([v, v, v])), 'range index')
        expect_raises(ValueError, lambda: energy_from_power(pd.Series([v]), f), 'range index')
    elif w == 'bad_type':
        expect_raises(ValueError, lambda: energy_from_power(two, power_type='left_labeled'), 'bad power_type')
        expect_raises(ValueError, lambda: energy_from_power(two, '1min', power_type=None), 'bad power_type')
    elif w == 'bad_type_coarse':
        expect_raises(ValueError, lambda: energy_from_power(two, f if f != '7min' else '1h', power_type='x'), 'bad power_type')
    elif w == 'empty':
        e = pd.Series([], dtype=float, index=pd.DatetimeIndex([], freq=f))
        got = energy_from_power(e)
        check(len(got) == 0, 'empty input gave %s', got)
    elif w == 'label_only_gap':
        s = pd.Series([v, v, v, v], index=mk_index([0, 15 * MIN, 30 * MIN, 120 * MIN], case['tz']))
        lab, exp = models.energy([0, 15 * MIN, 30 * MIN, 120 * MIN], [v] * 4, ns if f != 'D' else DAY, None, 'right_labeled')
        expect_series(energy_from_power(s, f), lab, exp, 'gap')
    obs.model()
    obs.outcome = w


def families(tier):
    q = tier == 'quick'
    return [
        {'name': 'slots', 'gen': gen(tier, True), 'run': run, 'bound': 3 if q else 5},
        {'name': 'variants', 'gen': gen(tier, False), 'run': run, 'bound': 2 if q else 3},
        {'name': 'calendar', 'gen': gen_cal(tier), 'run': run_cal, 'bound': 2 if q else 3},
        {'name': 'edge', 'gen': gen_edge(tier), 'run': run_edge, 'bound': 0},
    ]
