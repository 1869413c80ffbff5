"""C15 results depend on configuration, not on history: breadth-first search over sequences of public operations."""
import contextlib
import copy
import io
import pickle

import numpy as np
import pandas as pd

from mc import ta
from mc.core import digest
from mc.lib import *  # noqa

ASSUMPTIONS = ['configuration = constructor arguments, set_clearsky arguments, filter settings, aggregation_freq and gamma_pdc',
               'sequences are merged when the whole visible state of the object and the configuration are equal',
               'random draws are fixed by seeding the global source before every run']
LAT, LON = 39.7, -105.2
OUT = ['aggregated_performance', 'aggregated_insolation', 'filter', 'filter_components', 'filter_aggregated', 'filter_components_aggregated']
SRC = ['pv_energy', 'pv_power', 'poa_global', 'temperature_cell', 'temperature_ambient', 'power_expected', 'windspeed']
_D = {}


def dat(kind, which):
    k = (kind, which)
    if k not in _D:
        if kind == 'short':
            d = ta.data(days=7, step_h=1.0, start='2020-06-01' if which == 0 else '2020-05-11', rated=5000.0 if which == 0 else 800.0)
        else:
            d = ta.data(days=742 if which == 0 else 750, step_h=6.0, start='2018-02-03', rd=-0.01 if which == 0 else -0.03,
                        rated=5000.0 if which == 0 else 800.0)
        d['poa'] = d['poa'].fillna(250.0)
        _D[k] = d
    return _D[k]


def new(kind, which, cfg):
    """fresh object with configuration cfg -> (object, user inputs)"""
    import pvlib
    from rdtools import TrendAnalysis
    d = {k: v.copy() for k, v in dat(kind, which).items()}
    kw = dict(gamma_pdc=cfg['gamma'], aggregation_freq=cfg['freq'])
    if kind == 'short':
        kw.update(temperature_ambient=d['tamb'], windspeed=d['wind'])
    elif which == 0:
        kw.update(temperature_cell=d['tcell'])
    else:
        kw.update(power_expected=d['expected'], temperature_cell=d['tcell'])
    if which == 1 and kind == 'short':
        kw.update(temperature_model='close_mount_glass_glass', power_dc_rated=800.0)
    o = TrendAnalysis(d['pv'], d['poa'], **kw)
    if cfg['cs'] is not None:
        setcs(o, kind, cfg['cs'], d)
    with contextlib.redirect_stdout(io.StringIO()):
        o.filter_params = copy.deepcopy(cfg['fp'])
        o.filter_params_aggregated = copy.deepcopy(cfg['ap'])
    return o, d


def setcs(o, kind, v, d):
    import pvlib
    loc = pvlib.location.Location(LAT if v != 2 else -33.0, LON if v != 2 else 150.0, 'Etc/GMT+7')
    kw = {}
    if kind == 'long':
        kw = {'poa_global_clearsky': d['clear'] * (1.0 if v == 1 else 1.1)}
    elif v == 3:
        kw = {'poa_global_clearsky': d['clear'], 'temperature_cell_clearsky': d['tcell_cs']}
    if v != 3 or kind == 'long':
        kw['temperature_ambient_clearsky'] = d['tamb_cs'] + (3.0 if v == 2 else 0.0)
    o.set_clearsky(loc, 180 if v != 2 else 90, 20, albedo=0.25 if v != 2 else 0.5, **kw)


FP0 = {'normalized_filter': {}, 'poa_filter': {}, 'tcell_filter': {}, 'clip_filter': {}, 'clearsky_filter': {'model': 'csi'}, 'ad_hoc_filter': None}
AP0 = {'two_way_window_filter': {}, 'ad_hoc_filter': None}


def base_cfg(root):
    return {'gamma': -0.004, 'freq': 'D', 'cs': root, 'fp': copy.deepcopy(FP0), 'ap': copy.deepcopy(AP0)}


def results(o, pre):
    r = {k: getattr(o, pre + '_' + k, None) for k in OUT}
    r['res'] = o.results.get(pre)
    r['res'] = None if r['res'] is None else {k: v for k, v in r['res'].items()}
    return r


def analyse(o, kind, which, fail=False):
    np.random.seed(3)
    an = [] if kind == 'short' else ['yoy_degradation']
    kw = {}
    if fail:
        an, kw = ['yoy_degradation'], {'yoy_kwargs': {'nonsense': 1}} if kind == 'long' else {}
    try:
        (o.sensor_analysis if which == 'sensor' else o.clearsky_analysis)(analyses=an, **kw)
        return None
    except Exception as e:  # noqa
        return type(e).__name__


_REF = {}


def ref(kind, which, cfg, pre):
    k = digest([kind, which, repr(sorted(cfg.items(), key=str)), pre])
    if k not in _REF:
        o, d = new(kind, which, cfg)
        e = analyse(o, kind, pre)
        _REF[k] = (e, None if e else results(o, pre))
    return _REF[k]


def flat(x):
    return digest(x)


def compare(o, kind, which, cfg, pre, err, what):
    re, rr = ref(kind, which, cfg, pre)
    check(err == re, '%s: %s_analysis %s, on a fresh object %s', what, pre, err or 'succeeds', re or 'succeeds')
    if re:
        return
    g = results(o, pre)
    for k in rr:
        check(flat(g[k]) == flat(rr[k]), '%s: %s %s differs from that of a fresh object with the same configuration', what, pre, k)


def ops(kind):
    o = ['sensor', 'clearsky', 'fail_sensor', 'fail_clearsky', 'fp_poa', 'fp_reset', 'fp_scs', 'fp_nocs', 'fp_adhoc', 'ap_edit', 'freq', 'gamma',
         'cs1', 'cs2', 'deepcopy', 'pickle', 'copy', 'other', 'other_edit']
    return o + (['cs3'] if kind == 'short' else ['plot_sensor', 'plot_clearsky'])


def run_kind(kind):
    def run(hist, obs):
        root = hist[0]
        cfg = base_cfg(root)
        o, d = new(kind, 0, cfg)
        user = {k: snap(v) for k, v in d.items()}
        src = {k: snap(getattr(o, k)) for k in SRC if getattr(o, k) is not None}
        ocfg = base_cfg(1)
        other, od = new(kind, 1, ocfg)
        last = {}
        n = 0
        for op in hist[1:]:
            what = 'history %s' % hist[1:]
            before = {p: flat(results(o, p)) for p in ('sensor', 'clearsky')}
            touched = []
            if op in ('sensor', 'clearsky'):
                e = analyse(o, kind, op)
                compare(o, kind, 0, cfg, op, e, what)
                touched = [op]
                n += 1
            elif op.startswith('fail_'):
                e = analyse(o, kind, op[5:], fail=True)
                check(e is not None, '%s: expected the call to fail', what)
                touched = [op[5:]]
            elif op == 'fp_poa':
                o.filter_params['poa_filter'] = {'poa_global_low': 500}
                cfg['fp']['poa_filter'] = {'poa_global_low': 500}
            elif op == 'fp_reset':
                with contextlib.redirect_stdout(io.StringIO()):
                    o.filter_params = copy.deepcopy(FP0)
                    o.filter_params_aggregated = copy.deepcopy(AP0)
                cfg['fp'], cfg['ap'] = copy.deepcopy(FP0), copy.deepcopy(AP0)
            elif op == 'fp_scs':
                o.filter_params['sensor_clearsky_filter'] = {'model': 'csi', 'threshold': 0.1}
                cfg['fp']['sensor_clearsky_filter'] = {'model': 'csi', 'threshold': 0.1}
            elif op == 'fp_nocs':
                o.filter_params.pop('clearsky_filter', None)
                cfg['fp'].pop('clearsky_filter', None)
            elif op == 'fp_adhoc':
                i = o.pv_energy.index
                m = pd.Series([k % 5 != 1 for k in range(len(i))], index=i).iloc[3:].astype(object)
                m.iloc[7::9] = np.nan
                o.filter_params['ad_hoc_filter'] = m
                cfg['fp']['ad_hoc_filter'] = m.copy()
            elif op == 'ap_edit':
                o.filter_params_aggregated.update({'insolation_filter': {'quantile': 0.3}})
                cfg['ap']['insolation_filter'] = {'quantile': 0.3}
            elif op == 'freq':
                o.aggregation_freq = cfg['freq'] = '2D' if cfg['freq'] == 'D' else 'D'
            elif op == 'gamma':
                o.gamma_pdc = cfg['gamma'] = -0.001 if cfg['gamma'] == -0.004 else -0.004
            elif op in ('cs1', 'cs2', 'cs3'):
                setcs(o, kind, int(op[2]), d)
                cfg['cs'] = int(op[2])
            elif op == 'deepcopy':
                p = o
                o = copy.deepcopy(o)
                analyse(p, kind, 'sensor')          # the original goes its own way
                p.filter_params['poa_filter'] = {'poa_global_low': 800}
                p.filter_params_aggregated.clear()
                p.aggregation_freq = '3D'
                p.results.clear()
            elif op == 'pickle':
                o = pickle.loads(pickle.dumps(o))
            elif op == 'copy':
                o = copy.copy(o)
            elif op == 'other':
                for p in ('sensor', 'clearsky'):
                    e = analyse(other, kind, p)
                    compare(other, kind, 1, ocfg, p, e, what + ' (second object)')
                n += 2
            elif op == 'other_edit':
                other.filter_params.update(poa_filter={'poa_global_low': 300})
                ocfg['fp']['poa_filter'] = {'poa_global_low': 300}
                other.filter_params_aggregated['insolation_filter'] = {}
                ocfg['ap']['insolation_filter'] = {}
                other.gamma_pdc = ocfg['gamma'] = -0.002
            elif op.startswith('plot_'):
                import matplotlib
                matplotlib.use('Agg')
                import matplotlib.pyplot as plt
                p = op[5:]
                try:
                    o.plot_degradation_summary(p)
                    ok = True
                except KeyError:
                    ok = False
                plt.close('all')
                check(ok == (p in o.results), '%s: plot', what)
            for p in ('sensor', 'clearsky'):
                if p not in touched:
                    check(flat(results(o, p)) == before[p], '%s: operation %s changed the %s results', what, op, p)
            for k, s in src.items():
                check(snap(getattr(o, k)) == s, '%s: operation %s altered the stored %s', what, op, k)
            check(set(o.filter_params) == set(cfg['fp']) and set(o.filter_params_aggregated) == set(cfg['ap']), '%s: settings changed by %s', what, op)
        obs.outcome = [state(o), repr(sorted(cfg.items(), key=str)), state(other), repr(sorted(ocfg.items(), key=str))]
        for p in ('sensor', 'clearsky'):
            e = analyse(o, kind, p)
            compare(o, kind, 0, cfg, p, e, 'history %s then both analyses' % hist[1:])
        e = analyse(o, kind, 'sensor')
        compare(o, kind, 0, cfg, 'sensor', e, 'history %s then both analyses, then sensor again' % hist[1:])
        for k, s in user.items():
            check(snap(d[k]) == s, 'history %s: user input %s altered', hist[1:], k)
        obs.model(n + 3)
    return run


def state(o):
    """everything visible in the object"""
    out = {}
    for k, v in o.__dict__.items():
        if k == 'pvlib_location':
            v = repr(v)
        out[k] = v
    return digest(out)


def families(tier):
    q = tier == 'quick'
    fam = []
    for kind, dq, dt in (('short', 2, 4), ('long', 2, 3)):
        O = ops(kind)
        fam.append({'name': kind, 'run': run_kind(kind), 'bound': None,
                    'bfs': {'init': [[None], [1]], 'expand': (lambda O: lambda h: [h + [x] for x in O])(O), 'depth': dq if q else dt}})
    return fam
