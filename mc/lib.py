"""Shared helpers for harnesses: comparison, building of series, warnings, random-source control."""
import math
import warnings

import numpy as np
import pandas as pd

from .core import Violation, Skip, CheckError  # noqa: F401

NaN = float('nan')
MIN = 60 * 10**9
HOUR = 60 * MIN
DAY = 24 * HOUR
RTOL = 1e-9


def isnan(x):
    return x is None or (isinstance(x, float) and math.isnan(x)) or x is pd.NaT


def num(x):
    return NaN if x is None else x


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def ns_of(index):
    """nanoseconds since epoch of a DatetimeIndex, whatever its resolution"""
    return [int(x) for x in index.as_unit('ns').asi8]


def same_float(a, b, rtol=RTOL, atol=1e-12):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_values(a, b, rtol=RTOL, atol=1e-12):
    a = np.asarray(a, dtype=float).ravel()
    b = np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) |
                       (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))


def expect_times(got_index, exp_ns, what, ordered=True):
    g = ns_of(got_index)
    if not ordered:
        g, exp_ns = sorted(g), sorted(exp_ns)
    if g != list(exp_ns):
        fail('%s: index differs: got %s expected %s', what, list(map(str, pd.to_datetime(g)))[:12],
             list(map(str, pd.to_datetime(list(exp_ns))))[:12])


def expect_series(got, exp_ns, exp_vals, what, rtol=RTOL, atol=1e-12):
    check(isinstance(got, pd.Series), '%s: not a Series but %s', what, type(got))
    expect_times(got.index, exp_ns, what)
    if not same_values(got.to_numpy(dtype=float), exp_vals, rtol, atol):
        g = [None if math.isnan(float(v)) else float(v) for v in got.to_numpy(dtype=float)]
        e = [None if math.isnan(float(v)) else float(v) for v in exp_vals]
        d = [(str(pd.Timestamp(exp_ns[i])), g[i], e[i]) for i in range(len(g))
             if not same_values([num(g[i])], [num(e[i])], rtol, atol)]
        fail('%s: (time, got, expected) differ: %s', what, d[:6])


def expect_mask(got, index, exp, what):
    check(isinstance(got, pd.Series), '%s: mask is not a Series but %s', what, type(got))
    check(got.dtype == bool, '%s: mask dtype is %s, not bool', what, got.dtype)
    check(len(got) == len(index) and (got.index == index).all(), '%s: mask index differs from input', what)
    g = [bool(x) for x in got.to_numpy()]
    e = [bool(x) for x in exp]
    if g != e:
        d = [(str(index[i]), g[i], e[i]) for i in range(len(g)) if g[i] != e[i]]
        fail('%s: (time, got, expected) differ at %s', what, d[:6])


def expect_raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa
        fail('%s: expected %s, got %r', what, getattr(exc, '__name__', exc), e)
    fail('%s: expected %s, but a result was returned: %s', what, getattr(exc, '__name__', exc), str(r)[:300])


class Warned:
    def __init__(self, res, ws):
        self.result, self.warnings = res, ws

    def any(self, cls=UserWarning, sub=None):
        return any(issubclass(w.category, cls) and (sub is None or sub.lower() in str(w.message).lower())
                   for w in self.warnings)


def with_warnings(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        r = fn()
    return Warned(r, ws)


def median(xs):
    xs = sorted(xs)
    n = len(xs)
    if n == 0:
        return NaN
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def quantile(xs, q):
    """linear-interpolation quantile of a list without NaN"""
    xs = sorted(xs)
    if not xs:
        return NaN
    p = q * (len(xs) - 1)
    lo = int(math.floor(p))
    hi = min(lo + 1, len(xs) - 1)
    f = p - lo
    if f == 0 or xs[lo] == xs[hi]:
        return xs[lo]
    return xs[lo] + (xs[hi] - xs[lo]) * f


def mk_index(ns, tz=None, unit='ns', freq=None, name=None):
    """DatetimeIndex of the given UTC (tz given) or naive ns instants."""
    i = pd.DatetimeIndex(pd.to_datetime(list(ns)).as_unit('ns'))
    if tz is not None:
        i = i.tz_localize('UTC').tz_convert(tz)
    if unit != 'ns':
        i = i.as_unit(unit)
    if freq == 'infer':
        try:
            i.freq = pd.infer_freq(i)
        except (ValueError, TypeError):
            pass
    elif freq is not None:
        i.freq = freq
    if name is not None:
        i.name = name
    return i


def ts(s, tz=None):
    return pd.Timestamp(s, tz=tz).value


# --------------------------------------------------------------------------- deep snapshots (mutation / equality)
def snap(x, _d=0):
    """A comparable deep description of an object: values, dtypes, names, index names, freq, order."""
    if isinstance(x, pd.Series):
        return ('Series', str(x.dtype), repr(x.name), snap(x.index), _vals(x))
    if isinstance(x, pd.DataFrame):
        return ('Frame', snap(x.index), repr(list(x.columns)), repr(x.columns.name),
                tuple((str(x.dtypes.iloc[i]), _vals(x.iloc[:, i])) for i in range(x.shape[1])))
    if isinstance(x, pd.DatetimeIndex):
        return ('DTI', str(x.dtype), repr(x.name), str(x.freq), tuple(x.asi8.tolist()))
    if isinstance(x, pd.Index):
        return ('Index', str(x.dtype), repr(x.name), tuple(map(repr, x)))
    if isinstance(x, np.ndarray):
        return ('arr', str(x.dtype), x.shape, _vals(x))
    if isinstance(x, dict):
        return ('dict', type(x).__name__, tuple((repr(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, float):
        return ('f', repr(x))
    if isinstance(x, (int, str, bool, bytes, type(None), pd.Timestamp, pd.Timedelta)):
        return ('v', repr(x))
    return ('o', type(x).__name__, str(x) if 'object at' not in repr(x) else '')


def _vals(x):
    a = x.to_numpy() if hasattr(x, 'to_numpy') else np.asarray(x)
    if a.dtype == object:
        return tuple(repr(v) for v in a.ravel())
    if a.dtype.kind in 'fiubmM':
        return np.ascontiguousarray(a).tobytes()
    return tuple(repr(v) for v in a.ravel())
