"""Reference models (plain loops, float64) and builders shared by the checks. Only public API is used to drive
the code under test, so refactorings of its internals do not matter here."""
import itertools, json, math, os
import numpy as np
from scipy import special as sp

BACKEND = os.environ.get("MUYGPYS_BACKEND", "numpy")
FT = os.environ.get("MUYGPYS_FTYPE", "64")
TORCH = BACKEND == "torch"
RTOL = 1e-7 if FT == "64" else 2e-3
ATOL = 1e-9 if FT == "64" else 2e-4


LAYOUT = "C"      # memory layout of every array handed to the code under test (set per case by core: key "mem")


def _lay(x):
    """the same values in the memory layout of the case: row major, column major, strided, reversed, read only, or with 32-bit indices"""
    if LAYOUT == "C" or x.ndim == 0:
        return x
    if TORCH:
        import torch
        if LAYOUT == "F":
            return x.permute(*reversed(range(x.ndim))).contiguous().permute(*reversed(range(x.ndim)))
        if LAYOUT == "S":
            y = torch.zeros(x.shape + (2,), dtype=x.dtype)
            y[..., 0] = x
            return y[..., 0]
        return x
    if LAYOUT == "F":
        return np.asfortranarray(x)
    if LAYOUT == "S":
        y = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        v = y[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if LAYOUT == "R":
        y = x[tuple(slice(None, None, -1) for _ in x.shape)].copy()
        return y[tuple(slice(None, None, -1) for _ in x.shape)]
    if LAYOUT == "W":
        x.flags.writeable = False
    return x


LAYOUTS = ["F", "S", "i"] if TORCH else ["F", "S", "R", "W", "i"]


def with_layouts(cases):
    """every case again in every memory layout"""
    return [dict(c, mem=l) for c in cases for l in LAYOUTS]


def A(x):
    """float array of the backend"""
    if TORCH:
        import torch
        return _lay(torch.tensor(np.ascontiguousarray(x).reshape(np.shape(x)), dtype=torch.float64 if FT == "64" else torch.float32))
    return _lay(np.array(x, dtype=np.float64 if FT == "64" else np.float32))


def I(x):
    if TORCH:
        import torch
        return _lay(torch.tensor(np.ascontiguousarray(x).reshape(np.shape(x)), dtype=torch.int64 if LAYOUT != "i" else torch.int32))
    return _lay(np.array(x, dtype=np.int64 if LAYOUT != "i" else np.int32))


def N(x):
    if hasattr(x, "detach"):
        return x.detach().numpy()
    return np.asarray(x)


def close(a, b, rtol=None, atol=None):
    a, b = N(a), N(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return False
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol or RTOL, atol=atol or ATOL, equal_nan=False))


def closev(a, b, rtol=None, atol=None):
    """values agree whatever trailing/unit axes"""
    a, b = N(a), N(b)
    if a.size != b.size:
        return False
    return bool(np.allclose(a.astype(float).ravel(), b.astype(float).ravel(), rtol=rtol or RTOL, atol=atol or ATOL))


def eq(a, b):
    a, b = N(a), N(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def show(x, n=12):
    x = N(x)
    return f"shape{x.shape} {np.array2string(x.ravel()[:n], precision=8, threshold=n)}"


def diffmsg(got, want):
    g, w = N(got), N(want)
    if g.shape != w.shape:
        return f"shape {g.shape} instead of {w.shape}"
    d = np.abs(g.astype(float) - w.astype(float)).ravel()
    if d.size == 0:
        return "empty"
    j = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
    return f"at flat index {j}: got {g.ravel()[j]!r}, definition gives {w.ravel()[j]!r} (shape {g.shape})"


_PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113]


def pts(n, f, salt=0.0, span=3.0):
    """n well separated deterministic points in [0, span)^f (irrational rotation)"""
    i = np.arange(1, n + 1)[:, None]
    r = np.array([math.sqrt(_PR[j % len(_PR)]) + 0.618 * (j // len(_PR)) for j in range(f)])[None, :]
    return np.mod(i * r + salt, 1.0) * span


def vals(n, r, salt=0.0):
    i = np.arange(1, n + 1)[:, None]
    j = np.arange(1, r + 1)[None, :]
    return np.sin(1.3 * i + 0.7 * j + salt) + 0.3 * np.cos(2.9 * i * j + salt)


def nbrs(train, q, k, skip=None):
    """brute force neighbour lists (reference)"""
    out = []
    for a in range(len(q)):
        d = ((train - q[a]) ** 2).sum(-1)
        o = np.argsort(d, kind="stable")
        out.append((o if skip is None else o[o != int(skip[a])])[:k])
    return np.array(out, dtype=np.int64).reshape(len(q), -1)


# ---------------------------------------------------------------- kernels
def matern(d, nu):
    """closed form of the Matern correlation at distance d (already length scaled)"""
    d = np.asarray(d, dtype=float)
    if nu == math.inf:
        return np.exp(-d * d / 2)
    if nu == 0.5:
        return np.exp(-d)
    if nu == 1.5:
        s = math.sqrt(3) * d
        return (1 + s) * np.exp(-s)
    if nu == 2.5:
        s = math.sqrt(5) * d
        return (1 + s + s * s / 3) * np.exp(-s)
    s = math.sqrt(2 * nu) * d
    kv = sp.kv(nu, s)
    out = np.where(kv == 0.0, 0.0, 1.0)  # limits: kv underflows far away and overflows as the distance vanishes
    m = (s > 0) & (kv > 0) & np.isfinite(kv)
    out[m] = 2 ** (1 - nu) / sp.gamma(nu) * s[m] ** nu * kv[m]
    return out


def spec_ls(spec, f):
    ls = spec["ls"]
    return np.array(ls, dtype=float) if isinstance(ls, (list, tuple)) else np.full(f, float(ls))


def ref_k(spec, diffs):
    """kernel of the *difference* tensor diffs[..., f]"""
    diffs = np.asarray(diffs, dtype=float)
    ls = spec_ls(spec, diffs.shape[-1])
    d2 = ((diffs / ls) ** 2).sum(-1)
    if spec["kernel"] == "rbf":
        # RBF is exp(-d/2) of the deformed quantity; with metric F2 that is the usual squared exponential
        return np.exp(-(d2 if spec.get("metric", "F2") == "F2" else np.sqrt(d2)) / 2)
    d = np.sqrt(d2) if spec.get("metric", "l2") == "l2" else d2
    return matern(d, spec["nu"])


def cross_diffs(q, train, nn):
    return q[:, None, :] - train[nn]


def pair_diffs(train, nn):
    p = train[nn]
    return p[:, :, None, :] - p[:, None, :, :]


def noise_diag(noise, b, k):
    """variance added on the diagonal, shape (b, k)"""
    t = noise["t"]
    if t == "homo":
        return np.full((b, k), float(noise["v"]))
    if t == "hetero":
        return np.asarray(noise["v"], dtype=float).reshape(b, k)
    return np.zeros((b, k))


def ref_post(spec, Kin, Kcross, targets, noise=None, scale=1.0, kout=1.0):
    """mean (b, r) and variance (b,) by one solve per query"""
    Kin = np.asarray(Kin, float); Kcross = np.asarray(Kcross, float)
    b, k = Kcross.shape
    t = np.asarray(targets, float).reshape(b, k, -1)
    nd = noise_diag(noise or {"t": "null"}, b, k)
    mean = np.zeros((b, t.shape[-1])); var = np.zeros(b)
    for i in range(b):
        M = Kin[i] + np.diag(nd[i])
        w = np.linalg.solve(M, Kcross[i])
        mean[i] = w @ t[i]
        var[i] = scale * (kout - w @ Kcross[i])
    return mean, var


# ---------------------------------------------------------------- builders (lazy imports of the library)
def P(v, b="fixed"):
    from MuyGPyS.gp.hyperparameter import ScalarParam
    b = tuple(b) if isinstance(b, list) else b
    return ScalarParam(v, b)


def mk_def(spec):
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, DifferenceIsotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import VectorParam
    m = {"l2": l2, "F2": F2}[spec.get("metric", "l2" if spec["kernel"] == "matern" else "F2")]
    lsb = spec.get("lsb", "fixed")
    if spec.get("def", "iso") == "iso":
        return Isotropy(m, P(spec["ls"], lsb))
    if spec["def"] == "diso":
        return DifferenceIsotropy(m, P(spec["ls"], lsb))
    bs = lsb if isinstance(lsb, list) and lsb and not isinstance(lsb[0], (int, float)) else [lsb] * len(spec["ls"])
    return Anisotropy(m, VectorParam(*[P(v, b) for v, b in zip(spec["ls"], bs)]))


def mk_kernel(spec):
    from MuyGPyS.gp.kernels import Matern, RBF
    if spec["kernel"] == "rbf":
        return RBF(deformation=mk_def(spec))
    return Matern(smoothness=P(spec["nu"], spec.get("nub", "fixed")), deformation=mk_def(spec))


def mk_noise(n):
    from MuyGPyS.gp.noise import HomoscedasticNoise, HeteroscedasticNoise, NullNoise
    if n["t"] == "homo":
        b = n.get("b", "fixed")
        return HomoscedasticNoise(n["v"], tuple(b) if isinstance(b, list) else b)
    if n["t"] == "hetero":
        return HeteroscedasticNoise(A(np.asarray(n["v"], float)))
    return NullNoise()


def mk_scale(s):
    from MuyGPyS.gp.hyperparameter import AnalyticScale, DownSampleScale, FixedScale
    s = dict(s)
    t = s.pop("t")
    return {"fixed": FixedScale, "analytic": AnalyticScale, "down": DownSampleScale}[t](**s)


def mk_args(spec):
    a = dict(kernel=mk_kernel(spec))
    if "noise" in spec:
        a["noise"] = mk_noise(spec["noise"])
    if "scale" in spec:
        a["scale"] = mk_scale(spec["scale"])
    return a


def mk_model(spec):
    from MuyGPyS.gp import MuyGPS
    return MuyGPS(**mk_args(spec))


def is_iso(spec):
    return spec.get("def", "iso") == "iso"


def tensors(spec, q, train, nn):
    """inputs the kernel of this spec expects (distances or differences) as reference arrays"""
    c, p = cross_diffs(q, train, nn), pair_diffs(train, nn)
    if is_iso(spec):
        c2, p2 = (c ** 2).sum(-1), (p ** 2).sum(-1)
        m = spec.get("metric", "l2" if spec["kernel"] == "matern" else "F2")
        return (np.sqrt(c2), np.sqrt(p2)) if m == "l2" else (c2, p2)
    return c, p


# ---------------------------------------------------------------- losses
def ref_mse(p, t):
    p, t = np.asarray(p, float).ravel(), np.asarray(t, float).ravel()
    return sum((a - b) ** 2 for a, b in zip(p, t)) / len(p)


def ref_lool_u(p, t, v):
    p, t, v = np.asarray(p, float), np.asarray(t, float), np.asarray(v, float)
    if v.ndim == 1:
        p, t = p.reshape(len(v), -1), t.reshape(len(v), -1)
        return sum((p[i, j] - t[i, j]) ** 2 / v[i] + math.log(v[i]) for i in range(len(v)) for j in range(p.shape[1]))
    s = 0.0
    for i in range(len(v)):
        r = p[i].ravel() - t[i].ravel()
        s += r @ np.linalg.inv(v[i]) @ r + math.log(np.linalg.det(v[i]))
    return s


def ref_lool(p, t, v, s):
    return ref_lool_u(p, t, np.asarray(v, float) * float(s))


def ref_ph(p, t, boundary_scale=1.5):
    d = boundary_scale
    return d * d * sum(math.sqrt(1 + ((b - a) / d) ** 2) - 1 for a, b in zip(np.ravel(p), np.ravel(t)))


def ref_looph(p, t, v, s, boundary_scale=3.0):
    d2 = boundary_scale ** 2
    v = np.asarray(v, float)
    v = np.repeat(v.ravel(), np.size(p) // v.size)      # one variance per item covers all of its responses
    return sum(2 * d2 * (math.sqrt(1 + (b - a) ** 2 / (d2 * c * s)) - 1) + math.log(c * s)
               for a, b, c in zip(np.ravel(p), np.ravel(t), np.ravel(v)))


def ref_ce(p, t):
    """negative log likelihood of the true class under softmax, summed (targets > 0 mark the class)"""
    p, t = np.asarray(p, float), np.asarray(t, float)
    tot = 0.0
    for i in range(len(p)):
        m = p[i].max()
        z = m + math.log(np.exp(p[i] - m).sum())
        for j in range(p.shape[1]):
            if t[i, j] > 0:
                tot -= p[i, j] - z
    return tot


def ref_scale(Kin, targets, noise, iters=1):
    Kin = np.asarray(Kin, float)
    b, k = Kin.shape[:2]
    t = np.asarray(targets, float).reshape(b, k)
    nd = noise_diag(noise, b, k)

    def est(f):
        return sum(t[i] @ np.linalg.solve(f * (Kin[i] + np.diag(nd[i])), t[i]) for i in range(b)) / (b * k)
    s = est(1.0)
    for _ in range(1, iters):
        s = 0.5 * (s + est(s))
    return s


def de_bruijn(k, n):
    """the cyclic sequence over 0..k-1 that contains every word of length n exactly once (opened: its first n-1 symbols repeated)"""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]
