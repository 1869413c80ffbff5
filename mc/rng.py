"""Controlled random draws: the environment's random choices become choices of the explorer.

`drive(pattern)` replaces the numpy module-level draws by values taken from `pattern`, a list of numbers in [0, 1] used
cyclically (element-wise for array draws).  It only steers the exploration towards extreme histories: the oracles are valid
for every draw, so code that obtains its randomness in another way is still judged correctly.
"""
import contextlib
from statistics import NormalDist

import numpy as np

_ND = NormalDist()


class _Stream:
    def __init__(self, pattern):
        self.p, self.k = list(pattern), 0

    def take(self, shape):
        n = int(np.prod(shape)) if shape != () else 1
        u = np.array([self.p[(self.k + j) % len(self.p)] for j in range(n)], dtype=float)
        self.k += n
        return u.reshape(shape) if shape != () else float(u[0])


def _shape(size, *args):
    if size is not None:
        return (size,) if np.ndim(size) == 0 else tuple(size)
    return np.broadcast(*[np.asarray(a) for a in args]).shape if args else ()


@contextlib.contextmanager
def drive(pattern):
    st = _Stream(pattern)

    def uniform(low=0.0, high=1.0, size=None):
        u = st.take(_shape(size, low, high))
        r = np.asarray(low) + (np.asarray(high) - np.asarray(low)) * u
        return float(r) if r.ndim == 0 else r

    def normal(loc=0.0, scale=1.0, size=None):
        u = st.take(_shape(size, loc, scale))
        z = np.vectorize(lambda t: _ND.inv_cdf(min(max(t, 1e-9), 1 - 1e-9)))(u)
        r = np.asarray(loc) + np.asarray(scale) * z
        return float(r) if np.ndim(r) == 0 else r

    def rand(*d):
        return st.take(tuple(d))

    def randn(*d):
        return normal(size=d if d else None)

    new = {'uniform': uniform, 'normal': normal, 'rand': rand, 'random': lambda size=None: uniform(size=size),
           'random_sample': lambda size=None: uniform(size=size), 'randn': randn, 'standard_normal': lambda size=None: normal(size=size)}
    old = {k: getattr(np.random, k) for k in new}
    try:
        for k, f in new.items():
            setattr(np.random, k, f)
        yield st
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)
