"""C23 circular block bootstrap: every sample is the model with its residuals in consecutive circular blocks."""
import math

import numpy as np
import pandas as pd

from mc.lib import *  # noqa

ASSUMPTIONS = ['block starts are steered through a RandomState handed over as bootstrap_seed; the oracle holds for every draw',
               'uniformity of block starts is judged on fixed seeds with seven standard errors']


class Starts(np.random.RandomState):
    """a random source whose integers are prescribed"""

    def __init__(self, seq):
        super().__init__(0)
        self.seq, self.k = list(seq), 0

    def randint(self, low, high=None, size=None, dtype=int):
        hi = low if high is None else high
        n = 1 if size is None else int(np.prod(size))
        r = np.array([self.seq[(self.k + j) % len(self.seq)] % hi for j in range(n)], dtype=np.int64)
        self.k += n
        return r if size is not None else int(r[0])


def blocks_of(v, r, L):
    """list of possible block starts per block, or None"""
    n, out = len(r), []
    for s in range(0, n, L):
        seg = v[s:s + L]
        cand = np.flatnonzero(np.isnan(r)) if np.isnan(seg[0]) else np.flatnonzero(np.abs(r - seg[0]) < 1e-7)
        p = [int(p) for p in cand if same_values(seg, r[(p + np.arange(len(seg))) % n], 1e-9)]
        if not p:
            return None
        out.append(p)
    return out


def mk(c):
    n = c['n']
    i = pd.date_range('2020-01-01', periods=n, freq='D', tz=c.get('tz'))
    if c.get('irregular'):
        i = pd.DatetimeIndex([t for k, t in enumerate(pd.date_range('2020-01-01', periods=2 * n, freq='D')) if k % 3][:n])
    m = np.array([2.0 + 0.5 * k for k in range(n)])
    r = np.array([1 + 0.01 * ((k * 7 + 3) % 23) for k in range(n)])
    if c.get('nan') is not None:
        r[c['nan'] % n] = np.nan
    sig = m * r if c['type'] == 'multiplicative' else m + r
    return i, pd.Series(sig, i, name='s'), pd.Series(m, i, name='m'), r


def judge(out, i, m, r, c):
    check(isinstance(out, pd.DataFrame) and out.index.equals(i), 'samples are not on the index of the signal')
    check(list(out.columns) == list(range(c['nr'])), 'columns %s for %s samples', list(out.columns), c['nr'])
    st = []
    for k in range(c['nr']):
        v = out[k].to_numpy(dtype=float)
        v = v / m if c['type'] == 'multiplicative' else v - m
        b = blocks_of(v, r, c['L'])
        check(b is not None, 'sample %s is not made of circular blocks of length %s: %s from %s', k, c['L'], v.tolist(), r.tolist())
        st.append(b)
    return st


def gen_draw(tier):
    """all block starts of one sample for short signals"""
    q = tier == 'quick'

    def body(ch):
        n = ch.free('n', [3, 5, 6] if q else [2, 3, 4, 5, 6, 7])
        c = {'n': n, 'L': ch.free('L', [x for x in ([1, 2, 3, n] if q else range(1, n + 3)) if x <= n + 2]), 'type': ch.free('type', ['multiplicative', 'additive']), 'nr': 2}
        k = min(math.ceil(n / c['L']), 4)
        c['starts'] = [ch.free('s%d' % j, list(range(n))) for j in range(k)] + [n - 1]
        c['nan'] = ch.choose('nan', [None, 1])
        return c
    return body


def run_draw(c, obs):
    from rdtools.bootstrap import _make_time_series_bootstrap_samples as f
    i, s, m, r = mk(c)
    before = snap(s), snap(m)
    out = f(s, m, sample_nr=c['nr'], block_length=c['L'], decomposition_type=c['type'], bootstrap_seed=Starts(c['starts']))
    check((snap(s), snap(m)) == before, 'inputs modified')
    judge(out, i, m.to_numpy(), r, c)
    obs.model()
    obs.outcome = c['starts'][:2]


def gen_seed(tier):
    q = tier == 'quick'

    def body(ch):
        return {'n': ch.choose('n', [20, 7, 90, 13]), 'L': ch.choose('L', [4, 1, 90, 20, 7, 3]), 'nr': ch.choose('nr', [3, 1, 0, 12, 150]),
                'type': ch.free('type', ['multiplicative', 'additive', 'default']), 'seed': ch.choose('seed', [1, 'gen', 'state', None, 0, 99]), 'nan': ch.choose('nan', [None, 0, 5, -1]),
                'tz': ch.choose('tz', [None, 'America/Denver']), 'irregular': ch.choose('irr', [False, True])}
    return body


def run_seed(c, obs):
    from rdtools.bootstrap import _make_time_series_bootstrap_samples as f
    c = dict(c)
    kw = {} if c['type'] == 'default' else {'decomposition_type': c['type']}
    if c['type'] == 'default':
        c['type'] = 'multiplicative'
    i, s, m, r = mk(c)
    mkseed = {'gen': lambda: np.random.default_rng(7), 'state': lambda: np.random.RandomState(7)}.get(c['seed'], lambda: c['seed'])
    before = snap(s), snap(m)
    call = lambda: f(s, m, sample_nr=c['nr'], block_length=c['L'], bootstrap_seed=mkseed(), **kw)  # noqa
    out = call()
    check((snap(s), snap(m)) == before, 'inputs modified')
    st = judge(out, i, m.to_numpy(), r, c)
    if c['seed'] is not None:
        check(snap(call()) == snap(out), 'equal seeds give different samples')
    if c['nr'] >= 2 and c['n'] >= 7 and c['L'] < c['n'] and c['seed'] is not None:
        check(len({tuple(map(tuple, b)) for b in st}) > 1, 'all samples are the same')
    if c['nr'] == 150 and c['nan'] is None and c['n'] in (7, 20) and c['seed'] is not None:
        cnt = np.zeros(c['n'])
        tot = 0
        for b in st:
            for p in b[:-1] if len(b) > 1 else b:
                if len(p) == 1:
                    cnt[p[0]] += 1
                    tot += 1
        if tot:
            e = tot / c['n']
            check((np.abs(cnt - e) < 7 * math.sqrt(e) + 3).all(), 'block starts are not uniform: %s', cnt.tolist())
    obs.model()
    obs.outcome = [c['n'], c['L'], c['nr']]


def gen_ci(tier):
    def body(ch):
        return {'nr': ch.choose('nr', [5, 1, 2, 11]), 'cl': ch.choose('cl', [68.2, 95, 0, 100, 50]), 'ep': ch.choose('ep', [95, 50, 0, 100, 80]), 'fn': ch.choose('fn', ['mean', 'max', 'kw']),
                'cols': ch.choose('cols', ['range', 'named']), 'default': ch.choose('default', [True, False]), 'obj': ch.choose('obj', [False, True])}
    return body


def run_ci(c, obs):
    from rdtools.bootstrap import _construct_confidence_intervals as f
    i = pd.date_range('2020-01-01', periods=6, freq='D')
    d = pd.DataFrame({(k if c['cols'] == 'range' else 'c%d' % k): [((k * 5 + t * 3) % 7) + 0.1 * k for t in range(6)] for k in range(c['nr'])}, index=i)
    if c['obj']:
        d = d.astype(object)
    calls = []

    def metric(x, **kw):
        calls.append(x.copy())
        v = float(np.mean(np.asarray(x, dtype=float))) if c['fn'] != 'max' else float(np.max(np.asarray(x, dtype=float)))
        return v * kw.get('factor', 1.0)
    kw = {}
    if not c['default'] or c['cl'] != 68.2:
        kw['confidence_level'] = c['cl']
    if not c['default'] or c['ep'] != 95:
        kw['exceedance_prob'] = c['ep']
    if c['fn'] == 'kw':
        kw['factor'] = 3.0
    before = snap(d)
    ci, ex, mt = f(d, metric, **kw)
    check(snap(d) == before, 'samples modified')
    a = d.to_numpy(dtype=float)
    e = [(a[:, k].mean() if c['fn'] != 'max' else a[:, k].max()) * (3.0 if c['fn'] == 'kw' else 1) for k in range(c['nr'])]
    check(same_values(mt, e), 'metrics %s expected %s', list(mt), e)
    check(same_values(ci, [quantile(e, .5 - c['cl'] / 200), quantile(e, .5 + c['cl'] / 200)]), 'interval %s', ci)
    check(same_float(ex, quantile(e, 1 - c['ep'] / 100)), 'exceedance level %s', ex)
    obs.model()
    obs.outcome = [c['nr'], c['cl']]


def gen_bad(tier):
    def body(ch):
        return {'t': ch.free('t', ['multiplicative', 'additive', 'mult', '', None, 'Additive']), 'nr': ch.free('nr', [0, 3])}
    return body


def run_bad(c, obs):
    from rdtools.bootstrap import _make_time_series_bootstrap_samples as f
    i, s, m, r = mk({'n': 8, 'type': 'additive'})
    call = lambda: f(s, m, sample_nr=c['nr'], block_length=2, decomposition_type=c['t'], bootstrap_seed=1)  # noqa
    if c['t'] in ('multiplicative', 'additive'):
        call()
    else:
        expect_raises(ValueError, call, 'decomposition type %r' % c['t'])
    obs.model()


def families(tier):
    q = tier == 'quick'
    return [{'name': 'block starts', 'gen': gen_draw(tier), 'run': run_draw, 'bound': 0 if q else 1},
            {'name': 'seeds', 'gen': gen_seed(tier), 'run': run_seed, 'bound': 2 if q else 5},
            {'name': 'intervals', 'gen': gen_ci(tier), 'run': run_ci, 'bound': 3 if q else 7},
            {'name': 'rejected', 'gen': gen_bad(tier), 'run': run_bad, 'bound': 0}]
