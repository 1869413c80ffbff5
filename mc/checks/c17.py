"""C17 no public call changes its arguments, whatever their shape, whether it returns or raises."""
import warnings

import numpy as np

from mc import catalog
from mc.lib import *  # noqa

ASSUMPTIONS = ['identity of an argument: values, dtype, names, index, frequency, time zone, order of keys, attrs',
               'the random source and figures are not arguments']
SLOW = ('degradation_year_on_year_block',)
HEAVY = ('TrendAnalysis_sensor', 'TrendAnalysis_clearsky', 'cods_decomposition')


def names():
    return list(catalog.C())


def gen(tier):
    big = tier != 'quick'
    all_ = names()

    def body(ch):
        n = ch.free('call', all_)
        if n in SLOW and not big:
            return {'call': n, 'variant': ch.free('variant', [0, 'bad']), 'shape': ch.free('shape', ['plain', 'nan', 'named'])}
        return {'call': n, 'variant': ch.free('variant', catalog.VARIANTS),
                'shape': ch.free('shape', catalog.SHAPES if big or n not in HEAVY else [s for s in catalog.SHAPES if s not in ('infs', 'utc', 'seconds', 'f32', 'empty')])}
    return body


def invoke(f, args, kw):
    plt = catalog.plt_()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f(*args, **kw)
        return 'ok', r
    except Exception as e:
        return 'raised ' + type(e).__name__, None
    finally:
        plt.close('all')


def run(c, obs):
    f, args, kw = catalog.C()[c['call']](c['variant'])
    args, kw = catalog.reshape(args, c['shape']), catalog.reshape(kw, c['shape'])
    before = catalog.snapshot((args, kw))
    np.random.seed(1)
    st, r = invoke(f, args, kw)
    d = catalog.diff(before, catalog.snapshot((args, kw)))
    check(d is None, '%s (%s) changed its arguments: %s', c['call'], st, d)
    if st == 'ok' and c['call'] not in SLOW:      # and neither does a second call on the same objects, nor is anything kept that a later call changes
        np.random.seed(1)
        invoke(f, args, kw)
        d = catalog.diff(before, catalog.snapshot((args, kw)))
        check(d is None, '%s changed its arguments in a second call: %s', c['call'], d)
    obs.model()
    obs.outcome = [c['call'], st]


# ------------------------------------------------------------------ objects that keep the caller's data over many operations
OPS = {'trend': ['sensor', 'clearsky', 'soiling', 'filters', 'filters_agg', 'adhoc', 'plots', 'fail', 'set_clearsky', 'mutate_filters'],
       'srr': ['run', 'run_rain', 'run_random', 'run_perfect', 'run_fail'],
       'avail': ['run', 'run_opts', 'plot', 'run_fail'],
       'cods': ['decomp', 'decomp_order', 'fail']}


def gen_obj(tier):
    big = tier != 'quick'

    def body(ch):
        o = ch.free('object', ['srr', 'avail', 'trend', 'cods'])
        n = (3 if o in ('srr', 'avail') else 2) + (1 if big and o != 'cods' else 0)
        ops = OPS[o]
        return {'object': o, 'ops': [ch.free('op%d' % k, ops) for k in range(n)], 'shape': ch.choose('shape', ['plain', 'named', 'nofreq', 'nan'])}
    return body


def run_obj(c, obs):
    import pandas as pd
    import pvlib
    import rdtools as R
    from rdtools import soiling as S
    sh = c['shape']
    o = c['object']
    held = {}
    res = []
    if o == 'srr':
        pm, ins, pr = catalog.reshape(catalog.soil(0), sh)
        held.update(pm=pm, ins=ins, pr=pr)
        mk = lambda: S.SRRAnalysis(pm, ins, pr)                                               # noqa
        do = {'run': lambda a: a.run(**catalog.SRR), 'run_rain': lambda a: a.run(clean_criterion='precip_and_shift', **catalog.SRR),
              'run_random': lambda a: a.run(method='random_clean', recenter=False, **catalog.SRR), 'run_perfect': lambda a: a.run(method='perfect_clean', trim=True, **catalog.SRR),
              'run_fail': lambda a: a.run(**dict(catalog.SRR, min_interval_length=90))}
    elif o == 'avail':
        m, s, cu, e = catalog.reshape(catalog.avail(0), sh)
        held.update(m=m, s=s, c=cu, e=e)
        q = held.setdefault('opts', {'quantiles': [0.1, 0.9], 'low_threshold': pd.Series([0.2, 0.3], index=['a', 'b'])})
        mk = lambda: R.AvailabilityAnalysis(m, s, cu, e)                                       # noqa
        do = {'run': lambda a: a.run(), 'run_opts': lambda a: a.run(rollup_period='D', **q), 'plot': lambda a: a.plot(), 'run_fail': lambda a: a.run(rollup_period='xx')}
    elif o == 'cods':
        pm, ins, pr = catalog.reshape(catalog.soil(0, 740), sh)
        held.update(pm=pm)
        mk = lambda: S.CODSAnalysis(pm)                                                       # noqa
        do = {'decomp': lambda a: a.iterative_signal_decomposition(max_iterations=1), 'fail': lambda a: a.iterative_signal_decomposition(order=('SC', 'Rd')),
              'decomp_order': lambda a: a.iterative_signal_decomposition(max_iterations=1, order=('SC', 'SR', 'Rd'), pruning_iterations=1)}
    else:
        d = catalog.reshape(catalog.sysdata(0, 760, 6.0), sh)
        held['d'] = d
        loc = pvlib.location.Location(39.7, -105.2, tz='Etc/GMT+7', altitude=1500)
        fp = {'poa_filter': {'poa_global_low': 50}, 'clearsky_filter': {'model': 'csi'}, 'normalized_filter': {'energy_normalized_low': 0.02}}
        fpa = {'two_way_window_filter': {}, 'insolation_filter': {'quantile': 0.05}}
        ah = pd.Series(d['pv'].index.hour != 12, index=d['pv'].index)
        ah2 = catalog.holes(ah.iloc[::2])
        ah3 = catalog.holes(catalog.daymask(d['pv']))
        yk = {'recenter': False}
        sk = dict(catalog.SRR, max_relative_slope_error=1e5)
        held.update(fp=fp, fpa=fpa, ah=ah, ah2=ah2, ah3=ah3, yk=yk, sk=sk)

        def mk():
            a = R.TrendAnalysis(d['pv'], d['poa'], temperature_ambient=d['tamb'], windspeed=d['wind'], gamma_pdc=-0.004, power_dc_rated=5000.0, aggregation_freq='D',
                                power_expected=d['expected'])
            a.set_clearsky(pvlib_location=loc, poa_global_clearsky=d['clear'], temperature_ambient_clearsky=d['tamb_cs'])
            a.filter_params = fp
            return a

        def setf(a, k, v):
            setattr(a, k, v)

        def setitem(a, v):
            a.filter_params['ad_hoc_filter'] = v
            a.filter_params_aggregated['ad_hoc_filter'] = ah3

        def mutf(a):
            # configuration through the object must not reach back into the caller's dicts
            a.filter_params['tcell_filter'] = {'temperature_cell_low': -3}
            a.filter_params_aggregated['hampel_filter'] = {'k': '9d'}

        def plots(a):
            a.plot_degradation_summary('sensor', detailed=True)
            a.plot_pv_vs_irradiance('sensor')
            a.plot_degradation_timeseries('sensor', rolling_days=30, include_ci=False)
        do = {'sensor': lambda a: a.sensor_analysis(yoy_kwargs=yk), 'clearsky': lambda a: a.clearsky_analysis(yoy_kwargs=yk),
              'soiling': lambda a: a.sensor_analysis(analyses=['srr_soiling'], srr_kwargs=sk), 'filters': lambda a: setf(a, 'filter_params', fp),
              'filters_agg': lambda a: setf(a, 'filter_params_aggregated', fpa), 'adhoc': lambda a: setitem(a, ah2), 'plots': plots,
              'fail': lambda a: a.sensor_analysis(analyses=['yoy_degradation'], yoy_kwargs={'uncertainty_method': 'x'}),
              'set_clearsky': lambda a: a.set_clearsky(pvlib_location=loc, poa_global_clearsky=d['clear'].iloc[::2], temperature_cell_clearsky=d['tcell_cs']),
              'mutate_filters': mutf}
    before = catalog.snapshot(held)
    np.random.seed(1)
    st, a = invoke(mk, (), {})
    d_ = catalog.diff(before, catalog.snapshot(held))
    check(d_ is None, 'constructing %s changed the caller\'s data: %s', o, d_)
    if a is None:
        raise Skip('not constructed')
    for k in c['ops']:
        st, _ = invoke(do[k], (a,), {})
        res.append(st)
        now = catalog.snapshot(held)
        d_ = catalog.diff(before, now)
        check(d_ is None, '%s after %s: the caller\'s data changed in %s (%s): %s', o, c['ops'], k, st, d_)
    obs.model(len(res))
    obs.outcome = [o, c['ops'], res]


def families(tier):
    big = tier != 'quick'
    return [dict(name='calls', gen=gen(tier), run=run, bound=0), dict(name='objects', gen=gen_obj(tier), run=run_obj, bound=1 if big else 0)]
