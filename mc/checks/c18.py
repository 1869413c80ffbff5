"""C18 calls are independent of other calls, of earlier failures, of other objects and of other threads."""
import os
import pickle
import re
import select
import signal
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd

from mc import catalog
from mc.core import REPO, digest
from mc.lib import *  # noqa

ASSUMPTIONS = ['"a fresh process" is a fork of a process in which rdtools has been imported but never called',
               'the random source is part of the input of a call: it is seeded before every call and is per thread in the thread family',
               'a thread switch happens between two source lines of the package (a single line, and the libraries below, are atomic)',
               'a lazily loaded resource may stay loaded; only its effect on results is judged']
SLOW = ('degradation_year_on_year_block',)
_CAT = None


def cat():
    global _CAT
    if _CAT is None:
        _CAT = catalog.C()
    return _CAT


# ------------------------------------------------------------------ variants of a call
def build(name, v):
    """(f, args, kw) of variant v; 'o:key' base with one option changed, 'a:i[:key]' base with one argument changed"""
    if not isinstance(v, str) or v == 'bad':
        return cat()[name](v)
    f, args, kw = cat()[name](0)
    if v.startswith('o:'):
        k = v[2:]
        kw2 = cat()[name](2)[2]
        kw = dict(kw)
        if k in kw2:
            kw[k] = kw2[k]
        else:
            kw.pop(k)
        return f, args, kw
    p = v.split(':')
    a1 = cat()[name](1 if p[0] == 'a' else 2)[1]
    i = int(p[1])
    new = a1[i]
    if len(p) == 3:
        new = dict(args[i])
        if p[2] in a1[i]:
            new[p[2]] = a1[i][p[2]]
        else:
            new.pop(p[2])
    return f, args[:i] + (new,) + args[i + 1:], kw


def variants(name):
    out = [0, 1, 2, 'bad']
    f, args, kw = cat()[name](0)
    kw2 = cat()[name](2)[2]
    ks = [k for k in sorted(set(kw) | set(kw2)) if catalog.snapshot(kw.get(k, '-')) != catalog.snapshot(kw2.get(k, '-'))]
    if len(ks) > 1:
        out += ['o:' + k for k in ks]
    for tag, vv in (('a', 1), ('b', 2)):
        a1 = cat()[name](vv)[1]
        d = []
        for i, (x, y) in enumerate(zip(args, a1)):
            if catalog.snapshot(x) == catalog.snapshot(y):
                continue
            if isinstance(x, dict) and isinstance(y, dict):
                kk = [k for k in sorted(set(x) | set(y)) if catalog.snapshot(x.get(k, '-')) != catalog.snapshot(y.get(k, '-'))]
                d += ['%s:%d:%s' % (tag, i, k) for k in kk]
            else:
                d.append('%s:%d' % (tag, i))
        if len(d) > 1:
            out += d
    return out


# ------------------------------------------------------------------ forks
def forked(fn, limit=120):
    """fn() in a forked child; its (picklable) value"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                val = ('ok', fn())
            except Violation as e:
                val = ('violation', str(e))
            except BaseException as e:
                import traceback
                val = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(val, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return 'timeout'
            x = os.read(r, 1 << 20)
            if not x:
                break
            buf += x
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise CheckError('child died')
    st, val = pickle.loads(buf)
    if st == 'violation':
        raise Violation(val)
    if st == 'error':
        raise CheckError('in child:\n' + val)
    return val


def outcome(f, args, kw):
    """what the caller sees: a digest of the value, or the exception"""
    plt = catalog.plt_()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f(*args, **kw)
        return 'value ' + digest(r)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, re.sub(r'0x[0-9a-f]+', '0x', str(e))[:300])
    finally:
        plt.close('all')


def call(name, v, seed=1):
    f, args, kw = build(name, v)
    np.random.seed(seed)
    return outcome(f, args, kw)


BASE = {}


def baseline(name, v):
    if (name, v) not in BASE:
        BASE[name, v] = forked(lambda: call(name, v))
    return BASE[name, v]


def settings():
    import matplotlib as mpl
    o = {'warnings': [(a, getattr(b, 'pattern', None), c.__name__, getattr(m, 'pattern', None), n) for a, b, c, m, n in warnings.filters],
         'numpy error handling': np.geterr(), 'numpy printing': {k: str(v) for k, v in np.get_printoptions().items()},
         'matplotlib': {k: str(v) for k, v in mpl.rcParams.items() if not k.startswith(('backend', 'date.epoch'))},
         'working directory': os.getcwd(), 'environment': dict(os.environ)}
    from pandas._config import config as pc
    o['pandas options'] = {k: str(pd.get_option(k)) for k in pc._registered_options if k not in pc._deprecated_options}
    return o


def silent(fn):
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        return fn()
    finally:
        sys.stdout.close()
        sys.stdout = out


def prepare():
    """data of the catalogue, made without a call of the package in this process; baselines"""
    import plotly.express, plotly.graph_objects, statsmodels.api, sklearn, xgboost, arch.bootstrap, matplotlib.pyplot  # noqa: imported by libraries on first use
    cat()
    for v in (0, 1):
        if v not in catalog._S:
            catalog._S[v] = forked(lambda: silent(lambda: catalog.soil_result(v)))
    for d in ((6, 1.0), (2, 0.25), (3, 0.5), (2, 1.0), (800, 6.0), (120, 6.0), (760, 6.0)):
        catalog.sysdata(0, *d)


def prewarm(keys):
    '''baselines of all calls, each in its own fork, a few at a time'''
    jobs = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
    parts = [keys[i::jobs] for i in range(jobs)]
    pids = []
    for p in parts:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                res = {}
                for k in p:
                    try:
                        res[k] = silent(lambda: forked(lambda: call(*k)))
                    except Exception:
                        pass                      # made (and judged) again by the case that needs it
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
            finally:
                os._exit(0)
        os.close(w)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        if b:
            BASE.update(pickle.loads(b))


# ------------------------------------------------------------------ family 1: settings and random source
def gen_single(tier):
    def body(ch):
        n = ch.free('call', sorted(cat()))
        if n in SLOW and tier == 'quick':
            return {'call': n, 'variant': 'bad'}
        return {'call': n, 'variant': ch.free('variant', variants(n))}
    return body


def run_single(c, obs):
    def child(pre=()):
        import importlib
        for m in pre:
            try:
                importlib.import_module(m)
            except Exception:
                pass
        m0 = set(sys.modules)
        warnings.resetwarnings()
        warnings.simplefilter('default')
        warnings.showwarning = lambda *a, **k: None
        np.seterr(over='raise', invalid='warn', divide='ignore', under='warn')
        f, args, kw = build(c['call'], c['variant'])
        catalog.plt_()
        s0 = settings()
        np.random.seed(1)
        try:
            r = 'value ' + digest(f(*args, **kw))
        except Exception as e:
            r = 'raised ' + type(e).__name__
        g1 = np.random.get_state()
        s1 = settings()
        for k in s0:
            if s0[k] != s1[k]:
                new = sorted(set(sys.modules) - m0)
                if new and not pre:
                    return new                      # a library imported on first use may have done it
                d = [(z, s0[k][z], s1[k].get(z)) for z in s0[k] if s0[k][z] != s1[k].get(z)] if isinstance(s0[k], dict) else [s0[k], s1[k]]
                raise Violation('%s changed the %s of the process: %s' % (c['call'], k, d[:3]))
        catalog.plt_().close('all')
        f, args, kw = build(c['call'], c['variant'])
        np.random.seed(2)
        outcome(f, args, kw)
        g2 = np.random.get_state()
        check(not (np.array_equal(g1[1], g2[1]) and g1[2] == g2[2]), '%s (%s) sets the random source of the process to a fixed state', c['call'], c['variant'])
        f, args, kw = build(c['call'], c['variant'])
        np.random.seed(1)
        outcome(f, args, kw)
        g3 = np.random.get_state()
        check(np.array_equal(g1[1], g3[1]) and g1[2] == g3[2], '%s (%s) consumes different random numbers on the second call', c['call'], c['variant'])
        return r[:5]
    r = silent(lambda: forked(child))
    if isinstance(r, list):
        mods = r
        r = silent(lambda: forked(lambda: child(mods)))
    check(r != 'timeout', 'timeout')
    obs.inner(3, 3, 3)
    obs.model()
    obs.outcome = [c['call'], r]


# ------------------------------------------------------------------ family 2: histories of calls
def gen_same(tier):
    big = tier != 'quick'

    def body(ch):
        n = ch.free('call', sorted(cat()))
        if n in SLOW:
            return {'call': n, 'first': ch.free('first', [0, 'bad']), 'thirds': False} if big else None
        return {'call': n, 'first': ch.free('first', variants(n) if big or not n.startswith(('Trend', 'cods')) else [0, 1, 'bad']), 'thirds': big}
    return body


def run_same(c, obs):
    """first; then every variant of the same call (and, thorough, every third), each compared with a fresh process"""
    n = c['call']
    vs = variants(n) if n not in SLOW else [0, 'bad', 2]
    heavy = n.startswith(('Trend', 'cods', 'degradation_year')) or len(vs) > 12
    base = {v: baseline(n, v) for v in vs}

    def child():
        r = call(n, c['first'])
        check(r == base[c['first']], '%s(%s) is not reproducible in fresh processes: %s / %s', n, c['first'], r, base[c['first']])
        cnt = 1
        for v in vs:
            def second():
                r = call(n, v)
                check(r == base[v], '%s(%s) after %s(%s): %s, in a fresh process %s', n, v, n, c['first'], r, base[v])
                k = 1
                if c['thirds'] and not heavy:
                    for u in vs:
                        r = call(n, u)
                        check(r == base[u], '%s(%s) after %s, %s ...: %s, in a fresh process %s', n, u, c['first'], v, r, base[u])
                        k += 1
                return k
            cnt += forked(second)

        def inplace():                     # the caller overwrites his own objects and calls again
            f, args, kw = build(n, 0)
            np.random.seed(1)
            outcome(f, args, kw)
            f1, a1, k1 = build(n, 1)
            args, kw = overwrite(args, a1), overwrite(kw, k1)
            np.random.seed(1)
            r = outcome(f1, args, kw)
            check(r == base[1], '%s called again on the same objects with other contents: %s, in a fresh process %s', n, r, base[1])
            return 2
        if c['first'] == 0 and 1 in base:
            cnt += forked(inplace)
        return cnt
    k = silent(lambda: forked(child))
    obs.inner(k, k, k)
    obs.model(k)
    obs.outcome = [n, c['first'], base[c['first']][:30]]


def overwrite(x, y):
    if isinstance(x, dict) and isinstance(y, dict) and type(x) is dict:
        for k in y:
            x[k] = overwrite(x[k], y[k]) if k in x else y[k]
        for k in list(x):
            if k not in y:
                del x[k]
        return x
    if isinstance(x, tuple) and isinstance(y, tuple):
        return tuple(overwrite(a, b) for a, b in zip(x, y)) + tuple(y[len(x):])
    if isinstance(x, pd.Series) and isinstance(y, pd.Series) and x.index.equals(y.index) and x.dtype == y.dtype:
        x.iloc[:] = y.to_numpy()
        return x
    if isinstance(x, pd.DataFrame) and isinstance(y, pd.DataFrame) and x.index.equals(y.index) and list(x) == list(y) and list(x.dtypes) == list(y.dtypes):
        for k in range(x.shape[1]):
            x.isetitem(k, y.iloc[:, k].to_numpy())
        return x
    return y


def gen_cross(tier):
    def body(ch):
        n = ch.free('first', sorted(k for k in cat() if k not in SLOW))
        return {'first': n, 'variant': ch.free('variant', [0, 'bad'] if tier == 'quick' else [0, 1, 2, 'bad'])}
    return body


def run_cross(c, obs):
    n = c['first']
    others = [k for k in sorted(cat()) if k not in SLOW and k != n and (c['variant'] != 'bad' or k not in HEAVY)]
    base = {k: baseline(k, 0) for k in others}
    b0 = baseline(n, c['variant'])

    def child():
        r = call(n, c['variant'])
        check(r == b0, '%s(%s) is not reproducible in fresh processes', n, c['variant'])
        for k in others:
            def second():
                r = call(k, 0)
                check(r == base[k], '%s after %s(%s): %s, in a fresh process %s', k, n, c['variant'], r, base[k])
                return 1
            forked(second)
        return len(others)
    k = silent(lambda: forked(child))
    obs.inner(k, k, k)
    obs.model(k)
    obs.outcome = [n, c['variant']]


# ------------------------------------------------------------------ family 3: histories on one object, and other objects of the class
def make(kind, data):
    import pvlib
    import rdtools as R
    from rdtools import soiling as S
    if kind == 'srr':
        return S.SRRAnalysis(*catalog.soil(data))
    if kind == 'cods':
        return S.CODSAnalysis(catalog.soil(data, 740)[0])
    if kind == 'avail':
        return R.AvailabilityAnalysis(*catalog.avail(data))
    d = catalog.sysdata(data, 760, 6.0)
    a = R.TrendAnalysis(d['pv'], d['poa'], temperature_ambient=d['tamb'], windspeed=d['wind'], gamma_pdc=-0.004, power_dc_rated=5000.0, aggregation_freq='D')
    a.set_clearsky(pvlib_location=pvlib.location.Location(39.7, -105.2, tz='Etc/GMT+7', altitude=1500), poa_global_clearsky=d['clear'],
                   temperature_ambient_clearsky=d['tamb_cs'])
    a.filter_params['clearsky_filter'] = {'model': 'csi'}
    return a


SK = dict(catalog.SRR, max_relative_slope_error=1e5)
KW = {'srr': {'run': {}, 'perfect': {'method': 'perfect_clean'}, 'random': {'method': 'random_clean', 'recenter': False}, 'rain': {'clean_criterion': 'precip_and_shift', 'trim': True},
              'other_scale': {'day_scale': 7, 'min_interval_length': 4}, 'few': {'reps': 2}, 'fail': {'min_interval_length': 90}, 'badmethod': {'method': 'x'}},
      'avail': {'run': {}, 'opts': {'low_threshold': 0.5, 'quantiles': (0.2, 0.8)}, 'daily': {'rollup_period': 'D'}, 'limit': {'power_system_limit': 9.0}, 'fail': {'rollup_period': 'xx'}},
      'cods': {'decomp': {}, 'order': {'order': ('SC', 'SR', 'Rd')}, 'stl': {'degradation_method': 'STL'}, 'noclip': {'clip_soiling': False, 'ffill': False}, 'fail': {'order': ('SC', 'Rd')}},
      'trend': {'sensor': {}, 'clearsky': {}, 'soil': {}, 'sensor_opts': {'yoy_kwargs': {'recenter': False}}, 'fail': {'yoy_kwargs': {'uncertainty_method': 'x'}}, 'unknown': {'analyses': ['x']}}}


def step(kind, a, op):
    """perform op; what it gives"""
    kw = KW[kind][op]
    np.random.seed(1)
    if kind == 'srr':
        def f():
            r = a.run(**{**catalog.SRR, **kw})
            return [r, a.result_df, len(a.random_profiles), a.random_profiles, len(a.monte_losses), a.monte_losses]
    elif kind == 'avail':
        def f():
            a.run(**kw)
            return [a.loss_system, a.loss_subsystem, a.loss_total, a.results, a.outage_info, a.energy_expected_rescaled, a.energy_cumulative_corrected, a.error_info]
    elif kind == 'cods':
        def f():
            return a.iterative_signal_decomposition(max_iterations=1, **kw)
    else:
        def f():
            if op == 'soil':
                a.sensor_analysis(analyses=['srr_soiling'], srr_kwargs=dict(SK))
                r = a.results['sensor']['srr_soiling']
                return [r['p50_sratio'], r['sratio_confidence_interval'], r['calc_info']['soiling_interval_summary']]
            run, k = (a.clearsky_analysis, 'clearsky') if op == 'clearsky' else (a.sensor_analysis, 'sensor')
            run(**kw)
            r = a.results[k]['yoy_degradation']
            return [r['p50_rd'], r['rd_confidence_interval'], r['calc_info']['YoY_values'], getattr(a, k + '_filter'), getattr(a, k + '_aggregated_performance')]
    return outcome(f, (), {})


def gen_obj(tier):
    big = tier != 'quick'

    def body(ch):
        k = ch.free('object', sorted(KW))
        n = 2 + (1 if big and k != 'cods' else 0)
        return {'object': k, 'ops': [ch.free('op%d' % i, sorted(KW[k])) for i in range(n)], 'other': ch.free('other', [False, True])}
    return body


def state(a):
    """what a user can read from an analysis object"""
    o = {}
    for k, v in sorted(vars(a).items()):
        if not k.startswith('__'):
            try:
                o[k] = digest(catalog.snapshot(v))
            except Exception:
                o[k] = '?'
    return o


def run_obj(c, obs):
    kind = c['object']
    base = {}
    for op in set(c['ops']):
        key = ('obj', kind, op)
        if key not in BASE:
            BASE[key] = silent(lambda: forked(lambda: step(kind, make(kind, 0), op)))
        base[op] = BASE[key]

    def child():
        a = make(kind, 0)
        b = make(kind, 1) if c['other'] else None
        for k, op in enumerate(c['ops']):
            r = step(kind, a, op)
            check(r == base[op], '%s object: %s after %s gives %s, a new object gives %s', kind, op, c['ops'][:k], r, base[op])
            if b is not None:
                s0 = state(a)
                step(kind, b, c['ops'][(k + 1) % len(c['ops'])])
                s1 = state(a)
                d = [z for z in s0 if s0[z] != s1.get(z)]
                check(not d, '%s object: %s changed when another object ran %s', kind, d, c['ops'][(k + 1) % len(c['ops'])])
        return len(c['ops'])
    k = silent(lambda: forked(child))
    check(k != 'timeout', 'timeout')
    obs.inner(k, k, k)
    obs.model(k)
    obs.outcome = [kind, c['ops'], [base[o][:40] for o in c['ops']]]


# ------------------------------------------------------------------ family 4: two threads under a controlled scheduler
class TLRandom:
    """np.random functions answering from a generator of the calling thread"""

    def __init__(self):
        self.tl = threading.local()

    def install(self):
        rs = np.random.RandomState
        for k in dir(rs):
            if not k.startswith('_') and k in np.random.__dict__ and callable(getattr(rs, k)) and k not in ('seed', 'get_state', 'set_state'):
                setattr(np.random, k, self._f(k))
        np.random.seed = lambda s=None: setattr(self.tl, 'rs', rs(s))

    def _f(self, k):
        def g(*a, **kw):
            return getattr(self.tl.rs, k)(*a, **kw)
        return g


class Sched:
    """threads A and B; `plan` = [(thread, line events until it is suspended), ...]; after the plan the running thread goes on to its
    end, then the others"""

    def __init__(self, plan):
        self.plan = list(plan)
        self.ev = {'A': threading.Event(), 'B': threading.Event()}
        self.n = {'A': 0, 'B': 0}
        self.done = {'A': False, 'B': False}
        self.cur = None
        self.quota = None
        self.tid = {}
        self.blocked = False
        self.trace = {'A': [], 'B': []}

    def start(self, first):
        self.cur = first
        self._next_quota()
        self.ev[first].set()

    def _next_quota(self):
        self.quota = None
        if self.plan and self.plan[0][0] == self.cur:
            self.quota = self.n[self.cur] + self.plan.pop(0)[1]

    def line(self, me, frame):
        if self.blocked:
            return
        self.trace[me].append((frame.f_code.co_name, frame.f_lineno))
        if self.quota is not None and self.n[me] >= self.quota:
            self._switch(me)
        self.n[me] += 1

    def _switch(self, me):
        other = 'B' if me == 'A' else 'A'
        if self.done[other]:
            self.quota = None
            return
        self.ev[me].clear()
        self.cur = other
        self._next_quota()
        self.ev[other].set()
        # wait until control comes back; if the other one waits for a lock that I hold, go on
        last, still = None, 0
        while not self.ev[me].wait(0.05):
            t = self._cpu(other)
            now = (self.n[other], t)
            still = still + 1 if now == last else 0
            last = now
            if still >= 12:
                self.blocked = True                 # the rest of this schedule is not controlled (the other thread is disabled)
                return

    def _cpu(self, who):
        try:
            f = open('/proc/self/task/%d/stat' % self.tid[who]).read().rsplit(')', 1)[1].split()
            return (f[0] == 'R', f[11], f[12])
        except Exception:
            return None

    def finish(self, me):
        self.done[me] = True
        other = 'B' if me == 'A' else 'A'
        if self.cur == me:
            self.cur = other
            self._next_quota()
        self.ev[other].set()


def run_threads(calls, plan, first='A', tr=None):
    """calls {'A': (f, args, kw), 'B': ...}; outcomes under the plan, and the line traces"""
    s = Sched(plan)
    pk = os.path.join(REPO, 'rdtools') + os.sep
    out = {}

    def body(me):
        s.tid[me] = threading.get_native_id()

        def local(frame, ev, arg):
            if ev == 'line':
                s.line(me, frame)
            return local

        def glob(frame, ev, arg):
            return local if frame.f_code.co_filename.startswith(pk) else None
        s.ev[me].wait()
        np.random.seed(1)
        f, args, kw = calls[me]
        sys.settrace(glob)
        try:
            try:
                r = f(*args, **kw)
            finally:
                sys.settrace(None)
            out[me] = 'value ' + digest(r)
        except Exception as e:
            out[me] = 'raised %s: %s' % (type(e).__name__, re.sub(r'0x[0-9a-f]+', '0x', str(e))[:300])
        s.finish(me)
    th = [threading.Thread(target=body, args=(k,)) for k in calls]
    for t in th:
        t.start()
    s.start(first)
    for t in th:
        t.join(60)
        if t.is_alive():
            raise Violation('a thread did not finish (schedule %s)' % (plan,))
    return out, s


def thread_child(pair, plan, first):
    def f():
        catalog.plt_()
        calls = {k: build(*pair[k]) for k in pair}
        TLRandom().install()
        out, s = run_threads(calls, plan, first)
        return out, {k: (s.n[k], s.trace[k]) for k in s.n}, s.blocked
    return forked(f)


def points(trace, reps):
    """indices of the switch points: the first `reps` executions of every source line"""
    seen, out = {}, []
    for i, p in enumerate(trace):
        seen[p] = seen.get(p, 0) + 1
        if i > 0 and seen[p] <= reps:
            out.append(i)
    return out


NOTHREAD = SLOW
CROSS = [('xgboost_clip_filter', 'logic_clip_filter'), ('degradation_summary_plots', 'degradation_timeseries_plot'), ('soiling_interval_plot', 'soiling_rate_histogram'),
         ('degradation_year_on_year', 'degradation_ols'), ('soiling_srr', 'monthly_soiling_rates'), ('energy_from_power', 'interpolate'),
         ('get_clearsky_tamb', 'aggregation_insol'), ('irradiance_rescale', 'normalize_with_pvwatts')]


HEAVY = ('TrendAnalysis_clearsky', 'TrendAnalysis_sensor', 'TrendAnalysis_soiling', 'cods_decomposition', 'AvailabilityAnalysis', 'soiling_srr')
SKIPT = ('normalize_with_expected_power', 'tune_filter_plot', 'energy_from_power_up', 'interpolate_frame')    # thorough tier only
LONG = ('xgboost_clip_filter', 'logic_clip_filter', 'normalize_with_expected_power', 'normalize_with_pvwatts', 'degradation_year_on_year', 'tune_filter_plot')


def gen_thr(tier):
    big = tier != 'quick'

    def body(ch):
        kind = ch.free('kind', ['same', 'cross'])
        c = {'reps': 2 if big else 1, 'preemptions': 2 if big else 1, 'first': 'A'}
        slices = 1
        if kind == 'same':
            n = ch.free('call', sorted(k for k in cat() if k not in NOTHREAD and (big or k not in HEAVY + SKIPT)))
            vs = [(0, 1)] if n in HEAVY or (n in LONG and not big) else [(0, 1), (2, 0)] + ([(1, 1), ('bad', 0)] if big else [])
            a, b = ch.free('variants', vs)
            c['pair'] = {'A': (n, a), 'B': (n, b)}
            slices = 24 if n in HEAVY else 4 if n in LONG else 1
        else:
            x, y = ch.free('calls', CROSS if big else CROSS[:-1])
            if x in HEAVY and not big:
                return None
            c['pair'] = {'A': (x, 0), 'B': (y, 0)}
            c['first'] = ch.free('first', ['A', 'B'] if big or x not in LONG else ['A'])
            slices = 24 if big and (x in HEAVY) else 4 if x in LONG else 1
        if slices > 1:
            c['slice'] = [ch.free('slice', list(range(slices))), slices]
        return c
    return body


def run_thr(c, obs):
    pair = {k: tuple(v) for k, v in c['pair'].items()}
    first = c['first']
    other = 'B' if first == 'A' else 'A'
    base = {k: silent(lambda: baseline_plain(*pair[k])) for k in pair}
    out, info, _ = silent(lambda: thread_child(pair, [], first))
    check(out == base, 'two threads one after the other (%s first): %s, alone %s', first, out, base)
    n = 1
    pts = points(info[first][1], c['reps'])
    pts2 = points(info[other][1], 1)
    nodes = 0
    t0 = time.time()
    complete = True
    plans = [[(first, p)] for p in pts]
    if c['preemptions'] > 1 and len(pts) * len(pts2) <= 400:
        plans += [[(first, p), (other, q)] for p in points(info[first][1], 1) for q in pts2]
    if 'slice' in c:
        plans = plans[c['slice'][0]::c['slice'][1]]
    for plan in plans:
        if time.time() - t0 > (60 if c['preemptions'] == 1 else 125):
            complete = False
            break
        out, inf, blocked = silent(lambda: thread_child(pair, plan, first))
        for k in ('A', 'B'):
            check(out[k] == base[k], '%s(%s) in thread %s, %s(%s) in the other, schedule %s (switch before %s): %s, alone %s',
                  pair[k][0], pair[k][1], k, pair['B' if k == 'A' else 'A'][0], pair['B' if k == 'A' else 'A'][1], plan, info[first][1][plan[0][1]], out[k], base[k])
        n += 1
        nodes += sum(x[0] for x in inf.values())
    obs.inner(n, nodes, nodes, complete)
    obs.model(n)
    obs.outcome = [pair, first]


def baseline_plain(name, v):
    """like baseline, with the per-thread random source"""
    key = ('thr', name, v)
    if key not in BASE:
        def f():
            catalog.plt_()
            TLRandom().install()
            return run_threads({'A': build(name, v)}, [], 'A')[0]['A']
        BASE[key] = forked(f)
    return BASE[key]


def families(tier):
    prepare()
    prewarm([(n, v) for n in sorted(cat()) for v in (variants(n) if n not in SLOW else [0, 'bad', 2] if tier != 'quick' else ['bad'])])
    return [dict(name='settings', gen=gen_single(tier), run=run_single, bound=0), dict(name='repeated', gen=gen_same(tier), run=run_same, bound=0),
            dict(name='sequences', gen=gen_cross(tier), run=run_cross, bound=0), dict(name='objects', gen=gen_obj(tier), run=run_obj, bound=0),
            dict(name='threads', gen=gen_thr(tier), run=run_thr, bound=0)]
