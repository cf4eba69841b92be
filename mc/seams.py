"""External seams of the code under test: the random source, scipy's minimizer and bayes_opt's optimizer.
Import this *before* MuyGPyS. Each seam delegates to the real thing unless a fake is installed, so the library may
reach it through any import style."""
import contextlib
import threading
import numpy as np
import scipy.optimize as _so

_real_min = _so.minimize
_fake = threading.local()     # virtual MPI ranks are threads: each has its own answers


def _minimize(*a, **k):
    f = getattr(_fake, "min", None)
    if f is None:
        return _real_min(*a, **k)
    b = k.get("bounds")
    if isinstance(b, _so.Bounds):        # the same box, said differently
        n = len(np.ravel(k["x0"] if "x0" in k else a[1]))
        k = dict(k, bounds=[(float(lo), float(hi)) for lo, hi in zip(np.broadcast_to(b.lb, n), np.broadcast_to(b.ub, n))])
    return f(*a, **k)


_so.minimize = _minimize

_bo_err = None
try:
    import bayes_opt as _bo
    RealBO = _bo.BayesianOptimization

    class BayesianOptimization(RealBO):
        def __new__(cls, *a, **k):
            if getattr(_fake, "bo", None) is not None:
                return _fake.bo(*a, **k)   # not an instance of cls: __init__ is not run again
            return super().__new__(cls)
    _bo.BayesianOptimization = BayesianOptimization
except ImportError as e:  # pragma: no cover
    _bo_err = e


@contextlib.contextmanager
def fake_minimize(f):
    old, _fake.min = getattr(_fake, "min", None), f
    try:
        yield
    finally:
        _fake.min = old


@contextlib.contextmanager
def fake_bayes(f):
    old, _fake.bo = getattr(_fake, "bo", None), f
    try:
        yield
    finally:
        _fake.bo = old


@contextlib.contextmanager
def patched(**fns):
    """replace attributes of numpy.random for the duration (e.g. choice=..., uniform=...)"""
    old = {k: getattr(np.random, k) for k in fns}
    for k, v in fns.items():
        setattr(np.random, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)


class Draws:
    """Scripted answers of the random source's selection without replacement. `pick(pool size, size, i)` gives the i-th draw.
    A permutation (or shuffle) of the pool answers with the same selection in front, `hint` elements long, and the rest behind it."""

    def __init__(self, pick, hint=None):
        self.pick = pick
        self.hint = hint
        self.calls = []
        self.picked = []

    def choice(self, a, size=None, replace=True, p=None):
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = 1 if size is None else int(np.prod(size))
        if not replace and n > len(pool):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        i = len(self.calls)
        idx = self.pick(len(pool), n, i) if not replace else [0] * n   # a draw with repetition may repeat: give the worst one
        self.calls.append((pool.copy(), n, bool(replace)))
        out = pool[np.asarray(idx, dtype=int)]
        self.picked.append(out.copy())
        return out[0] if size is None else out

    def permutation(self, a):
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        i = len(self.calls)
        h = self.hint(len(pool)) if callable(self.hint) else self.hint
        n = len(pool) if h is None else min(h, len(pool))
        idx = [int(j) for j in self.pick(len(pool), n, i)][:n]
        self.calls.append((pool.copy(), n, False))
        self.picked.append(pool[np.asarray(idx, dtype=int)])
        idx += [j for j in range(len(pool)) if j not in set(idx)]
        return pool[np.asarray(idx, dtype=int)]

    def shuffle(self, x):
        x[:] = self.permutation(x)

    def __enter__(self):
        def choice(*a, **k):
            return self.choice(*a, **k)

        def permutation(*a, **k):
            return self.permutation(*a, **k)

        def shuffle(x):
            return self.shuffle(x)
        self._cm = patched(choice=choice, permutation=permutation, shuffle=shuffle)
        self._cm.__enter__()
        return self

    def __exit__(self, *a):
        return self._cm.__exit__(*a)


class Uniform:
    """the random source answers u (in [0,1)) to every uniform draw"""

    def __init__(self, us):
        self.us = list(us)
        self.n = 0

    def _u(self, size=None):
        u = self.us[min(self.n, len(self.us) - 1)]
        self.n += 1
        return u if size is None else np.full(size, u)

    def __enter__(self):
        def uniform(low=0.0, high=1.0, size=None):
            return np.asarray(low) + self._u(size) * (np.asarray(high) - np.asarray(low)) if size is not None else float(low + self._u() * (high - low))

        def rnd(size=None):
            return self._u(size)

        def rand(*shape):
            return self._u(shape if shape else None)
        self._cm = patched(uniform=uniform, random=rnd, random_sample=rnd, rand=rand)
        self._cm.__enter__()
        return self

    def __exit__(self, *a):
        return self._cm.__exit__(*a)
