"""C08: every loss against its formula, for all assignments of a value grid on tiny batches, batch orders and splits, and a size ladder."""
import itertools
import numpy as np
from ref import *

PV = [-1.5, 0.0, 0.7]
VV = [0.25, 2.0]
SV = [0.5, 1.0, 3.0]
BS = [0.3, 1.5, 4.0]
LADDER = [1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5001, 8193, 10000, 10001, 16385]


def cases(tier, env):
    out = []
    for name in ("mse", "ph"):
        for b, r in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (2, 2), (1, 3)]:
            out.append(dict(k="raw", loss=name, b=b, r=r))
    for name in ("lool", "lool_u", "looph"):
        for b in (1, 2) + ((3,) if tier == "thorough" or name == "lool" else ()):
            out.append(dict(k="var", loss=name, b=b))
    for name in ("lool", "lool_u"):
        for b, r in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (3, 3), (2, 3), (4, 4), (5, 2), (1, 5)]:
            out.append(dict(k="mat", loss=name, b=b, r=r))
            out.append(dict(k="vec", loss=name, b=b, r=r))
    for name in ("lool", "lool_u", "looph"):
        for b, r in [(1, 1), (2, 1), (3, 1), (5, 1), (1, 2), (2, 2), (3, 2), (3, 3), (2, 3), (4, 4), (5, 2), (10, 1), (10, 10), (33, 1), (129, 2)]:
            out.append(dict(k="shared", loss=name, b=b, r=r))
    for b, r in [(1, 2), (2, 2), (1, 3), (1, 4)] + [(3, 2), (2, 3)] * (tier == "thorough" or TORCH):
        out.append(dict(k="ce", b=b, r=r))
    for n in LADDER:
        out.append(dict(k="ladder", b=n))
    out.append(dict(k="extreme"))
    out += with_layouts([c for c in out if c["k"] in ("mat", "vec", "shared") or (c["k"] == "ladder" and c["b"] < 70) or (c["k"], c.get("b")) in (("raw", 2), ("var", 1))])
    return out


def fns():
    import MuyGPyS.optimize.loss as L
    return dict(mse=L.mse_fn, ph=L.pseudo_huber_fn, lool=L.lool_fn, lool_u=L.lool_fn_unscaled, looph=L.looph_fn, ce=L.cross_entropy_fn)


def scal(x):
    x = N(x)
    return float(x.reshape(-1)[0]) if x.size == 1 else float("nan")


def check(rec, sig, fn, args, kw, w, key, tolr=None):
    got = rec.call(sig, fn, *args, **kw)
    rec.state(key)
    rec.trace()
    g = scal(got)
    tol = tolr or (1e-8 if FT == "64" else 2e-4)
    if not abs(g - w) <= tol * max(1.0, abs(w)):
        rec.fail(sig, f"{got!r} instead of {w} for {key}"[:900])
        return False
    rec.outcome((sig, round(w, 7)))
    return True


def orders(rec, sig, fn, arrs, kw, w, key):
    """all batch orders, and the additive split into all two-part partitions (for up to 3 points)"""
    b = len(arrs[0])
    for p in itertools.permutations(range(b)):
        got = rec.call(sig, fn, *[A(a[list(p)]) if isinstance(a, np.ndarray) else a for a in arrs], **kw)
        if not abs(scal(got) - w) <= (1e-8 if FT == "64" else 2e-4) * max(1, abs(w)):
            rec.fail(sig + ".order", f"order {p} gives {got!r}, not {w}: {key}"[:600])


def run(case, rec):
    F = fns()
    k = case["k"]
    if k == "raw":
        b, r, name = case["b"], case["r"], case["loss"]
        n = b * max(r, 1)
        shape = (b,) if r == 0 else (b, r)
        grid = PV if n <= 3 else PV[:2]
        for p in itertools.product(grid, repeat=n):
            for t in itertools.product(grid, repeat=n):
                pa, ta = np.array(p).reshape(shape), np.array(t).reshape(shape)
                for kw in ([{}] if name == "mse" else [{}] + [dict(boundary_scale=x) for x in BS]):
                    w = ref_mse(pa, ta) if name == "mse" else ref_ph(pa, ta, **kw)
                    if not check(rec, name, F[name], (A(pa), A(ta)), kw, w, (name, shape, p, t, tuple(kw.items()))):
                        return
                if p[0] == t[-1] and b > 1:
                    orders(rec, name, F[name], [pa, ta], {}, ref_mse(pa, ta) if name == "mse" else ref_ph(pa, ta), (p, t))
        return
    if k == "var":
        b, name = case["b"], case["loss"]
        for p in itertools.product(PV, repeat=b):
            for t in itertools.product(PV, repeat=b):
                for v in itertools.product(VV, repeat=b):
                    pa, ta, va = np.array(p), np.array(t), np.array(v)
                    for s in (SV if b < 3 else SV[1:]) if name != "lool_u" else [None]:
                        for kw in ([{}] if name != "looph" else [{}] + [dict(boundary_scale=x) for x in BS]):
                            args = (A(pa), A(ta), A(va)) + (() if s is None else (s,))
                            w = {"lool": lambda: ref_lool(pa, ta, va, s), "lool_u": lambda: ref_lool_u(pa, ta, va), "looph": lambda: ref_looph(pa, ta, va, s, **kw)}[name]()
                            if not check(rec, name, F[name], args, kw, w, (name, p, t, v, s, tuple(kw.items()))):
                                return
                            if s in (None, 3.0) and not kw:
                                # a scale array of one value is the same as the number
                                if s is not None:
                                    check(rec, name + ".scale-array", F[name], args[:3] + (A(np.array([s])),), kw, w, (name, "arr", p, t, v))
                                if b > 1 and p[0] != p[-1]:
                                    orders(rec, name, F[name], [pa, ta, va] + ([] if s is None else [s]), kw, w, (p, t, v))
        return
    if k == "shared":
        # one variance per item, single or several responses in columns
        b, r, name = case["b"], case["r"], case["loss"]
        for i in range(20 if b < 20 else 3):
            p, t, v = vals(b, r, 0.37 * i), vals(b, r, 0.11 * i + 1), 0.2 + np.abs(vals(b, 1, 0.5 * i))[:, 0]
            for s in SV if name != "lool_u" else [None]:
                for kw in ([{}] if name != "looph" else [{}] + [dict(boundary_scale=x) for x in BS]):
                    w = {"lool": lambda: ref_lool(p, t, v, s), "lool_u": lambda: ref_lool_u(p, t, v), "looph": lambda: ref_looph(p, t, v, s, **kw)}[name]()
                    args = (A(p), A(t), A(v)) + (() if s is None else (s,))
                    if not check(rec, f"{name}.shared", F[name], args, kw, w, (name, k, b, r, i, s, tuple(kw.items())), 1e-6 if FT == "64" else 2e-2):
                        return
        return
    if k in ("mat", "vec"):
        b, r, name = case["b"], case["r"], case["loss"]
        for i in range(40):
            # every case is a point of a deterministic lattice: shifts i of the value tables, correlations in {-0.6, 0, 0.6}
            p, t = vals(b, r, 0.37 * i), vals(b, r, 0.11 * i + 1)
            if k == "mat":
                M = vals(b * r, r, 0.21 * i).reshape(b, r, r)
                V = M @ M.transpose(0, 2, 1) + (0.2 + 0.1 * (i % 5)) * np.eye(r)
            else:
                V = 0.2 + np.abs(vals(b, r, 0.5 * i))
            for s in SV if name == "lool" else [None]:
                Vs = V * (1.0 if s is None else s)
                w = ref_lool_u(p, t, Vs) if k == "mat" else float(((p - t) ** 2 / Vs + np.log(Vs)).sum())
                args = (A(p), A(t), A(V)) + (() if s is None else (s,))
                if not check(rec, f"{name}.{k}", F[name], args, {}, w, (name, k, b, r, i, s), 1e-6 if FT == "64" else 2e-2):
                    return
            if k == "vec" and name == "lool":
                sv = 0.5 + np.arange(r) * 0.75
                w = float(((p - t) ** 2 / (V * sv) + np.log(V * sv)).sum())
                if not check(rec, "lool.vec-scale", F[name], (A(p), A(t), A(V), A(sv)), {}, w, (name, k, b, r, i, "vs"), 1e-6 if FT == "64" else 2e-2):
                    return
            if b > 1 and b <= 4:
                w = ref_lool_u(p, t, V) if k == "mat" else float(((p - t) ** 2 / V + np.log(V)).sum())
                for perm in itertools.permutations(range(b)):
                    pl = list(perm)
                    a = (A(p[pl]), A(t[pl]), A(V[pl])) + (() if name == "lool_u" else (1.0,))
                    if not check(rec, f"{name}.{k}.order", F[name], a, {}, w, (name, k, b, r, i, perm), 1e-6 if FT == "64" else 2e-2):
                        return
        return
    if k == "ce":
        b, r = case["b"], case["r"]
        lg = [-2.0, 0.0, 1.0] if b * r <= 6 else [-2.0, 1.0]
        for p in itertools.product(lg, repeat=b * r):
            pa = np.array(p).reshape(b, r)
            for cls in itertools.product(range(r), repeat=b):
                for hi, lo in ((1.0, 0.0), (1.0, -1.0), (1 - 1 / r, -1 / r), (0.3, -0.1)):
                    t = np.full((b, r), lo)
                    t[np.arange(b), list(cls)] = hi
                    if not check(rec, "cross_entropy", F["ce"], (A(pa), A(t)), {}, ref_ce(pa, t), ("ce", p, cls, hi, lo), 1e-6 if FT == "64" else 1e-3):
                        return
        return
    if k == "ladder":
        b = case["b"]
        for r in (0, 1, 2, 3, 5, 10):
            p, t = vals(b, max(r, 1)) * 2, vals(b, max(r, 1), 1.7)
            if r == 0:
                p, t = p[:, 0], t[:, 0]
            v = 0.3 + np.abs(vals(b, 1, 0.4))[:, 0]
            for lay in ("C", "F", "strided", "int"):
                if lay == "int":
                    P_, T_ = A(p), (I(np.round(t)) if not TORCH else I(np.round(t)))
                    tt = np.round(t)
                elif lay == "strided":
                    if TORCH:
                        import torch
                        P_, T_ = A(np.repeat(p, 2, axis=0))[::2], A(np.repeat(t, 3, axis=0))[::3]
                    else:
                        P_, T_ = A(np.repeat(p, 2, axis=0))[::2], A(np.repeat(t, 3, axis=0))[::3]
                    tt = t
                else:
                    P_, T_ = A(p), A(t)
                    if lay == "F" and not TORCH:
                        P_, T_ = np.asfortranarray(P_), np.asfortranarray(T_)
                    elif lay == "F" and r:
                        P_, T_ = P_.t().contiguous().t(), T_.t().contiguous().t()
                    tt = t
                tl = 1e-8 if FT == "64" else 2e-3
                check(rec, "mse.ladder", F["mse"], (P_, T_), {}, ref_mse(p, tt), ("mse", b, r, lay), tl)
                check(rec, "ph.ladder", F["ph"], (P_, T_), dict(boundary_scale=0.8), ref_ph(p, tt, 0.8), ("ph", b, r, lay), tl)
                if r == 0:
                    check(rec, "lool.ladder", F["lool"], (P_, T_, A(v), 1.7), {}, ref_lool(p, tt, v, 1.7), ("lool", b, lay), tl)
                    check(rec, "lool_u.ladder", F["lool_u"], (P_, T_, A(v)), {}, ref_lool_u(p, tt, v), ("lool_u", b, lay), tl)
                    check(rec, "looph.ladder", F["looph"], (P_, T_, A(v), 1.7), {}, ref_looph(p, tt, v, 1.7), ("looph", b, lay), tl)
                if r >= 2 and lay != "int":
                    lab = (np.arange(b) * 7 // 3) % r
                    oh = np.where(lab[:, None] == np.arange(r), 1.0, -0.2)
                    check(rec, "ce.ladder", F["ce"], (P_, A(oh)), {}, ref_ce(p, oh), ("ce", b, r, lay), tl)
                    # only one class present in the batch
                    oh = np.where(np.full((b, 1), r - 1) == np.arange(r), 1.0, 0.0)
                    check(rec, "ce.one-class", F["ce"], (P_, A(oh)), {}, ref_ce(p, oh), ("ce1", b, r, lay), tl)
        if b <= 513:
            for r in (1, 2, 3):
                M = vals(b * r, r).reshape(b, r, r)
                V = M @ M.transpose(0, 2, 1) + 0.3 * np.eye(r)
                p, t = vals(b, r), vals(b, r, 2.2)
                check(rec, "lool.mat.ladder", F["lool"], (A(p), A(t), A(V), 0.6), {}, ref_lool_u(p, t, V * 0.6), ("lm", b, r), 1e-6 if FT == "64" else 2e-2)
        return
    # finite for finite input
    big = [1e3, -1e3, 0.0, 1.0]
    for p in itertools.product(big, repeat=2):
        for t in itertools.product((1.0, 0.0), repeat=1):
            pa = np.array([p]); oh = np.array([[t[0], 1 - t[0]]])
            g = scal(rec.call("cross_entropy", F["ce"], A(pa), A(oh)))
            rec.state(("ce-fin", p, t)); rec.trace()
            if not np.isfinite(g):
                rec.fail("cross_entropy.finite", f"{g} for predictions {p}, targets {oh}")
    for p, t, v, s in itertools.product((-1e4, 0.0, 1e4), (-1e4, 0.0, 1e4), (1e-6, 1.0, 1e6), (1e-3, 1.0, 1e3)):
        for name, args in (("lool", (v, s)), ("lool_u", (v,)), ("looph", (v, s))):
            a = tuple(A(np.array([x])) for x in (p, t, args[0])) + args[1:]
            w = {"lool": lambda: ref_lool([p], [t], [v], s), "lool_u": lambda: ref_lool_u([p], [t], [v]), "looph": lambda: ref_looph([p], [t], [v], s)}[name]()
            check(rec, name + ".extreme", F[name], a, {}, w, (name, p, t, v, s), 1e-6 if FT == "64" else 1e-2)
    # magnitudes far from one: covariance determinants leave the floating point range long before the loss does
    for e in ((-120, -60, -20, 20, 60, 120) if FT == "64" else (-14, -8, 8, 14)):
        f = 10.0 ** e
        for b, r in ((1, 1), (2, 2), (2, 3), (3, 5), (1, 8)):
            M = vals(b * r, r, 0.3).reshape(b, r, r)
            V = M @ M.transpose(0, 2, 1) + 0.5 * np.eye(r)
            d = vals(b, r)
            p, t = d * np.sqrt(f), np.zeros((b, r))
            w = sum(d[i] @ np.linalg.inv(V[i]) @ d[i] + np.linalg.slogdet(V[i])[1] + r * e * np.log(10.0) for i in range(b))
            check(rec, "lool_u.mat.extreme", F["lool_u"], (A(p), A(t), A(V * f)), {}, w, ("mx", e, b, r), 1e-6 if FT == "64" else 2e-2)
            check(rec, "lool.mat.extreme", F["lool"], (A(p), A(t), A(V)) + (f,), {}, w, ("mxs", e, b, r), 1e-6 if FT == "64" else 2e-2)
            v = 0.5 + np.abs(d)
            w = float((d ** 2 / v + np.log(v) + e * np.log(10.0)).sum())
            check(rec, "lool_u.vec.extreme", F["lool_u"], (A(p), A(t), A(v * f)), {}, w, ("vx", e, b, r), 1e-6 if FT == "64" else 2e-2)
    # predictions with three axes (components by responses)
    for b, q, r in ((1, 3, 1), (1, 3, 2), (2, 3, 1), (2, 1, 3), (4, 3, 2), (3, 3, 3), (2, 2, 4), (10, 3, 5)):
        for i in range(4):
            p, t = vals(b, q * r, 0.3 * i).reshape(b, q, r), vals(b, q * r, 1.0 + i).reshape(b, q, r)
            check(rec, "mse.axes", F["mse"], (A(p), A(t)), {}, float(((p - t) ** 2).mean()), ("m3", b, q, r, i))
            for d in BS:
                check(rec, "ph.axes", F["ph"], (A(p), A(t)), dict(boundary_scale=d), ref_ph(p, t, d), ("p3", b, q, r, i, d))
