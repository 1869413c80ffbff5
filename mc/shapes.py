"""Synthetic day shapes used by several harnesses."""
import math

import numpy as np
import pandas as pd


def value(kind, h, k=0):
    """relative output at local hour h (0..24)"""
    s = math.sin((h - 6) / 12 * math.pi) if 6 < h < 18 else 0.0
    if kind == 'smooth':
        return s
    if kind == 'clip':
        return min(s, 0.8)
    if kind == 'lowclip':
        return min(s, 0.5)
    if kind == 'frozen':
        return 0.6
    if kind == 'night':
        return 0.0
    if kind == 'cloudy':
        return s * (0.5 + 0.4 * math.sin(7 * h) * math.cos(3.1 * h))
    if kind == 'jag':
        return s * (1.0 if int(h * 4) % 2 else 0.6)
    if kind == 'noisyclip':
        return min(s, 0.8) * (1 + 0.0004 * math.sin(37 * h)) if s > 0.8 else s
    if kind == 'slantclip':
        return min(s, 0.8 - 0.004 * h)
    if kind == 'twolevel':
        return min(s, 0.8 if h < 12 else 0.7)
    if kind == 'nan':
        return math.nan
    raise AssertionError(kind)


def day(kinds, step=15, days=1, tz=None, start='2020-06-01', scale=1000.0, dst=False):
    if isinstance(kinds, str):
        kinds = [kinds] * days
    idx = pd.date_range(start, periods=int(len(kinds) * 24 * 60 / step), freq='%dmin' % step)
    vals = []
    for t in idx:
        d = (t.normalize() - idx[0].normalize()).days
        h = t.hour + t.minute / 60
        vals.append(value(kinds[d], h) * scale)
    s = pd.Series(vals, index=idx)
    if tz:
        s.index = pd.DatetimeIndex(idx.tz_localize(tz, ambiguous=True, nonexistent='shift_forward'))
        s = s[~s.index.duplicated()]
        try:
            s.index.freq = pd.infer_freq(s.index)
        except Exception:
            pass
    return s
