"""C16 filter settings: breadth-first search over all sequences of changes; the model is a plain dict."""
import contextlib
import copy
import io
import pickle

import pandas as pd

from mc import ta
from mc.lib import *  # noqa

ASSUMPTIONS = ['settings are changed through the public attributes filter_params / filter_params_aggregated',
               'methods of dict that bypass the object (dict.__setitem__(obj, ...)) are not ways of changing settings']
VALID = {'fp': ['normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter', 'clearsky_filter',
                'sensor_clearsky_filter', 'ad_hoc_filter'],
         'ap': ['two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter', 'ad_hoc_filter']}
ATTR = {'fp': 'filter_params', 'ap': 'filter_params_aggregated'}
BAD = {'fp': ['two_way_window_filter', 'poa', 'Poa_filter', '', 5, None, 'csi_filter'],
       'ap': ['poa_filter', 'hampel', 'HAMPEL_FILTER', '', 5, None, 'valid_keys']}
PICK = {'fp': ['poa_filter', 'hour_angle_filter', 'ad_hoc_filter'], 'ap': ['hampel_filter', 'two_way_window_filter', 'ad_hoc_filter']}
V1, V2 = {'poa_global_low': 300}, {'k': 3}
DEFAULT = {'fp': {'normalized_filter': {}, 'poa_filter': {}, 'tcell_filter': {}, 'clip_filter': {}, 'clearsky_filter': {}, 'ad_hoc_filter': None},
           'ap': {'two_way_window_filter': {}, 'ad_hoc_filter': None}}


def ops(tier):
    o = []
    for t in ('fp', 'ap'):
        a, b, c = PICK[t]
        for k in (a, b, c):
            o.append([t, 'set', k])
        for k in BAD[t]:
            o.append([t, 'set', k])
        for form in ('update_dict', 'update_kw', 'update_pairs', 'update_iter', 'update_gen', 'update_same', 'ior_dict', 'ior_pairs', 'assign'):
            o.append([t, form, [a, b]])
            o.append([t, form, [b, BAD[t][0]]])
            o.append([t, form, [BAD[t][1], a]])
        o += [[t, 'update_mixed', [a, b]], [t, 'update_mixed', [a, BAD[t][0]]], [t, 'update_mixed', [BAD[t][0], b]], [t, 'update_none', []],
              [t, 'assign', []], [t, 'assign_self', []], [t, 'assign_nondict', []], [t, 'assign_none', []], [t, 'assign_list', []]]
        for k in (b, a, BAD[t][0], BAD[t][1], 5):
            o.append([t, 'setdefault', k])
        o.append([t, 'setdefault1', b])
        o.append([t, 'setdefault1', BAD[t][0]])
        o += [[t, 'pop', a], [t, 'del', a], [t, 'popmiss', BAD[t][0]], [t, 'popitem', []], [t, 'clear', []], [t, 'get', BAD[t][0]],
              [t, 'copy_then_assign', a], [t, 'or', BAD[t][0]]]
    o += [['obj', 'copy', []], ['obj', 'deepcopy', []], ['obj', 'pickle', []], ['obj', 'pickle5', []], ['obj', 'pickle_settings', []], ['obj', 'failing_run', []],
          ['obj', 'swap', []]]
    return o


class Model:
    def __init__(self, expected):
        self.d = {t: dict(DEFAULT[t]) for t in DEFAULT}
        if expected:
            del self.d['fp']['tcell_filter']


_DATA = {}


def fresh(expected):
    from rdtools import TrendAnalysis
    if not _DATA:
        _DATA.update(ta.data(days=1, step_h=2.0))
    d = _DATA
    if expected:
        return TrendAnalysis(d['pv'], pv_input='energy', power_expected=d['expected'])
    return TrendAnalysis(d['pv'], pv_input='energy')


def step(obj, m, op):
    """-> new object; checks the reaction"""
    t, kind, arg = op
    if t == 'obj':
        if kind == 'copy':
            n = copy.copy(obj)
            return n
        if kind == 'deepcopy':
            n = copy.deepcopy(obj)
            # the two are independent from here on: a change of the original must not show in the copy
            obj.filter_params['sensor_clearsky_filter'] = {'model': 'csi'}
            obj.filter_params_aggregated.clear()
            return n
        if kind in ('pickle', 'pickle5'):
            return pickle.loads(pickle.dumps(obj, protocol=2 if kind == 'pickle' else 5))
        if kind == 'pickle_settings':
            fp = pickle.loads(pickle.dumps(obj.filter_params))
            ap = copy.copy(obj.filter_params_aggregated)
            obj.filter_params = fp
            obj.filter_params_aggregated = ap
            expect_raises(KeyError, lambda: fp.__setitem__('nope', 1), 'unpickled settings accept an invalid name')
            expect_raises(KeyError, lambda: ap.__setitem__('nope', 1), 'copied settings accept an invalid name')
            return obj
        if kind == 'failing_run':
            try:
                obj.sensor_analysis(analyses=['srr_soiling'], srr_kwargs={'nonsense': 1})
            except Exception:  # noqa
                pass
            return obj
        if kind == 'swap':
            # assigning one settings dictionary to the other attribute is just another assignment
            model_op(m, 'fp', dict(m.d['ap']), lambda: setattr(obj, 'filter_params', obj.filter_params_aggregated))
            return obj
    at = ATTR[t]
    cur = getattr(obj, at)
    md = m.d[t]
    val = {k: (V1 if i % 2 == 0 else V2) for i, k in enumerate(arg)} if isinstance(arg, list) else None
    if kind == 'set':
        react(arg in VALID[t], lambda: cur.__setitem__(arg, V1), lambda: md.__setitem__(arg, V1), op)
    elif kind == 'setdefault':
        got = react(arg in VALID[t], lambda: cur.setdefault(arg, V2), lambda: md.setdefault(arg, V2), op)
    elif kind == 'setdefault1':
        react(arg in VALID[t], lambda: cur.setdefault(arg), lambda: md.setdefault(arg), op)
    elif kind.startswith('update') or kind.startswith('ior'):
        ok = all(k in VALID[t] for k in (val or {}))
        upd = lambda: md.update(val)   # noqa
        if kind == 'update_dict':
            f = lambda: cur.update(val)   # noqa
        elif kind == 'update_kw':
            f = lambda: cur.update(**val)   # noqa
        elif kind == 'update_pairs':
            f = lambda: cur.update(list(val.items()))   # noqa
        elif kind == 'update_iter':
            f = lambda: cur.update(iter(list(val.items())))   # noqa
        elif kind == 'update_gen':
            f = lambda: cur.update((k, v) for k, v in val.items())   # noqa
        elif kind == 'update_same':
            src = dict(val)
            f = lambda: cur.update(pd.Series(src)) if False else cur.update(src)   # noqa
        elif kind == 'update_mixed':
            k0, k1 = list(val)
            f = lambda: cur.update({k0: val[k0]}, **{k1: val[k1]})   # noqa
        elif kind == 'update_none':
            f = lambda: cur.update()   # noqa
        elif kind == 'ior_dict':
            def f():
                c = cur
                c |= val
                check(c is cur, '|= made a new object')
        elif kind == 'ior_pairs':
            def f():
                c = cur
                c |= list(val.items())
        react(ok, f, upd, op)
    elif kind == 'assign':
        model_op(m, t, dict(val), lambda: setattr(obj, at, val))
        # the caller's dict and the settings are separate containers
        val['ad_hoc_filter'] = 'caller changed its dict'
    elif kind == 'assign_self':
        setattr(obj, at, cur)
    elif kind in ('assign_nondict', 'assign_none', 'assign_list'):
        v = {'assign_nondict': 'poa_filter', 'assign_none': None, 'assign_list': [('poa_filter', {})]}[kind]
        expect_raises(ValueError, lambda: setattr(obj, at, v), 'assigning %r' % (v,))
    elif kind == 'pop':
        check(cur.pop(arg, 'absent') == md.pop(arg, 'absent'), 'pop result')
    elif kind == 'popmiss':
        check(cur.pop(arg, 'absent') == 'absent', 'pop of an invalid name')
    elif kind == 'del':
        if arg in md:
            del md[arg]
            del cur[arg]
        else:
            expect_raises(KeyError, lambda: cur.__delitem__(arg), 'del')
    elif kind == 'popitem':
        if md:
            k, v = cur.popitem()
            check(k in md and md.pop(k) is not NotImplemented, 'popitem returned %s', k)
    elif kind == 'clear':
        cur.clear()
        md.clear()
    elif kind == 'get':
        check(cur.get(arg) is None and arg not in cur, 'invalid name present')
    elif kind == 'copy_then_assign':
        c = cur.copy()
        c[arg] = V2
        md2 = dict(md)
        md2[arg] = V2
        model_op(m, t, md2, lambda: setattr(obj, at, c))
    elif kind == 'or':
        try:
            cur | {arg: 1}
        except KeyError:
            pass
    return obj


def react(ok, f, g, op):
    if ok:
        return f(), g()
    expect_raises(KeyError, f, 'change %s' % (op,))


def model_op(m, t, new, f):
    if all(k in VALID[t] for k in new):
        f()
        m.d[t] = new
    else:
        expect_raises(KeyError, f, 'assigning %s' % sorted(map(str, new)))


def run(hist, obs):
    exp = bool(hist[0])
    obj = fresh(exp)
    other = fresh(False)
    m = Model(exp)
    with contextlib.redirect_stdout(io.StringIO()):
        for op in [None] + hist[1:]:
            if op is not None:
                obj = step(obj, m, op)
            for t in ('fp', 'ap'):
                cur = getattr(obj, ATTR[t])
                check(isinstance(cur, dict), 'settings are a %s', type(cur))
                check(set(cur) == set(m.d[t]), 'after %s: %s has %s, expected %s', op, ATTR[t], sorted(map(str, cur)), sorted(map(str, m.d[t])))
                for k in cur:
                    check(cur[k] == m.d[t][k], 'after %s: %s[%s] is %s, expected %s', op, ATTR[t], k, cur[k], m.d[t][k])
                    check(k in VALID[t], 'invalid name stored')
                check(dict(getattr(other, ATTR[t])) == DEFAULT[t], 'settings of another object changed')
    # whatever happened, an invalid name is still rejected and a valid one accepted
    for t in ('fp', 'ap'):
        cur = getattr(obj, ATTR[t])
        expect_raises(KeyError, lambda: cur.__setitem__('nope', {}), 'set after history')
        expect_raises(KeyError, lambda: cur.update({'nope': {}}), 'update after history')
        check('nope' not in cur, 'invalid name stored')
    obs.model()
    # copies of a copy behave as the first; keep the kind of object in the state
    kinds = [o[1] for o in hist[1:] if o[0] == 'obj' and o[1] not in ('swap', 'failing_run')]
    obs.outcome = [kinds[-1:], repr(sorted(m.d['fp'].items(), key=str)), repr(sorted(m.d['ap'].items(), key=str))]


def families(tier):
    O = ops(tier)
    return [{'name': 'changes', 'run': run, 'bound': None,
             'bfs': {'init': [[0], [1]], 'expand': lambda h: [h + [o] for o in O], 'depth': 3 if tier == 'quick' else 5}}]
