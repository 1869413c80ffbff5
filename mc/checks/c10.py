"""C10 two_way_window / hampel / directional_tukey vs. windowed reference rules."""
import pandas as pd

from mc import models
from mc.lib import *  # noqa

ASSUMPTIONS = ['index sorted and unique', 'verdicts on exact floating-point near-ties (<1e-9 apart but unequal) are not judged']
BASES = {
    'flat': lambda i: 1.0,
    'ramp': lambda i: 1.0 + i / 64,
    'wave': lambda i: 1.0 + [0, 1, 3, 2, -1, -2, 0, 2][i % 8] / 64,
    'step': lambda i: 1.0 if i < 7 else 0.5,
    'season': lambda i: 1.0 + [0, 3, 7, 12, 15, 17, 15, 12, 7, 3][i // 6 % 10] / 256,
}
VALS = ['V', 'N', 'M', 0.75, 1.25, 5.0, 0.0, -1.0]


def gen(tier, filt):
    n = 14

    def body(ch):
        return {'base': ch.free('base', ['flat', 'ramp', 'wave', 'step']),
                'slots': [ch.choose('s%d' % i, VALS) for i in range(n)],
                'param': ch.choose('param', {
                    'two': ['default', ['7D', 0.25], ['3D', 0.03], ['10D', 0.0625], ['5D', 0.5], [6, 0.25], ['7D', 0.0]],
                    'hampel': ['default', ['14d', 1], ['7d', 3], ['4d', 2], ['3d', 0.5], [5, 3], [4, 3], ['14d', 0], ['6d', 10]],
                    'tukey': ['default', ['7D', 3.0], ['5D', 0.5], ['10D', 1.0], ['4D', 0.0], [6, 1.5], ['7D', 10.0]]}[filt]),
                'step_h': ch.choose('step', [24, 12, 36]),
                'tz': ch.choose('tz', [None, 'US/Eastern']),
                'scale': ch.choose('scale', [1.0, 64.0, 0.125])}
    return body


def gen_long(tier, filt):
    def body(ch):
        n = ch.free('n', [45, 120])
        return {'base': ch.free('base', ['wave', 'flat', 'season']), 'n': n, 'every': ch.free('every', [5, 9, 40]),
                'pat': [ch.choose('p%d' % i, VALS) for i in range(2)],
                'run': ch.choose('run', [1, 3, 8]),
                'param': ch.choose('param', {
                    'two': ['default', ['7D', 0.25], ['20D', 0.0625], [15, 0.25]],
                    'hampel': ['default', ['30d', 3], ['4d', 2], [21, 3]],
                    'tukey': ['default', ['30D', 3.0], [21, 1.5]]}[filt]),
                'step_h': ch.choose('step', [24, 6]), 'tz': ch.choose('tz', [None, 'US/Eastern']), 'scale': 1.0}
    return body


def make_run(filt):
    def run(case, obs):
        import rdtools
        c = case
        if 'n' in c:
            c = dict(c, slots=[c['pat'][i // c['every'] % 2] if i % c['every'] < c['run'] and i >= c['every'] else 'V' for i in range(c['n'])])
        t0 = ts('2020-03-01 05:00')
        t, v = [], []
        for i, s in enumerate(c['slots']):
            if s == 'M':
                continue
            t.append(t0 + i * c['step_h'] * HOUR)
            x = BASES[c['base']](i)
            v.append((NaN if s == 'N' else x if s == 'V' else s) * c['scale'])
        s = pd.Series(v, index=mk_index(t, c['tz']), name='z')
        p = c['param']
        fn = {'two': rdtools.two_way_window_filter, 'hampel': rdtools.hampel_filter, 'tukey': rdtools.directional_tukey_filter}[filt]
        mod = {'two': models.two_way_window, 'hampel': models.hampel, 'tukey': models.tukey}[filt]
        if p == 'default':
            w, a = {'two': (7 * DAY, 0.03), 'hampel': (14 * DAY, 3), 'tukey': (7 * DAY, 1.5)}[filt]
            got = fn(s)
        else:
            w = ('rows', p[0]) if isinstance(p[0], int) else int(p[0][:-1]) * DAY
            a = p[1]
            arg = p[0] if isinstance(p[0], int) else (p[0] if filt == 'hampel' else pd.Timedelta(p[0]))
            kw = {'two': 'outlier_threshold', 'hampel': 't0', 'tukey': 'k'}[filt]
            got = fn(s, arg, **{kw: a}) if c['step_h'] == 24 else fn(s, arg, a)
        exp = mod(t, v, w, a)
        e2 = [bool(g) if e is None else e for g, e in zip(got, exp)]
        expect_mask(got, s.index, e2, filt)
        # metamorphic: positive scaling by a power of two is exact
        g2 = fn(s * 4.0) if p == 'default' else fn(s * 4.0, arg, a)
        bad = [i for i in range(len(t)) if bool(g2.iloc[i]) != bool(got.iloc[i]) and exp[i] is not None]
        check(not bad, '%s: verdict depends on units at %s', filt, bad)
        obs.model()
        obs.outcome = [int(x) for x in got]
    return run


def families(tier):
    q = tier == 'quick'
    return [{'name': f, 'gen': gen(tier, f), 'run': make_run(f), 'bound': 2 if q else 3} for f in ('two', 'hampel', 'tukey')] + \
        [{'name': 'long_' + f, 'gen': gen_long(tier, f), 'run': make_run(f), 'bound': 2 if q else 3} for f in ('two', 'hampel', 'tukey')]
