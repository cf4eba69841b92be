"""C02: kernel values. All (kernel, smoothness, fixed/free, deformation, metric, length scales) x distance grids, and every
history of set_params / keyword overrides up to a depth; the reference model is the closed form at the current parameters."""
import itertools, math
import numpy as np
from ref import *

NUS = [0.5, 1.5, 2.5, math.inf, 0.3, 0.49, 0.51, 0.7, 1.0, 1.49, 2.0, 2.51, 3.2, 3.5, 4.5, 7.0, 0.05, 12.0, 20.0, 22.5, 30.0, 60.0]
NUS_FREE = [0.5, 1.5, 2.5, 0.3, 0.7, 1.0, 2.0, 3.2, 25.0]
LS = [0.01, 0.3, 1.0, 2.0, 7.5, 100.0]
DGRID = np.array([0.0, 1e-12, 1e-8, 1e-4, 1e-2, 0.1, 0.3, 0.5, 0.9, 1.0, 1.1, 1.7, 2.0, 3.0, 5.0, 9.0, 17.0, 40.0, 1e3, 1e5, 1e7])


def gen(nu, nub):
    return not (nub == "fixed" and nu in (0.5, 1.5, 2.5, math.inf))


def specs(tier):
    out = []
    for d in ("iso", "diso", "aniso"):
        for ls in LS:
            for met in ("F2", "l2"):
                for lsb in ("fixed", [0.001, 1000.0]):
                    f = 3
                    l = ls if d != "aniso" else [ls, ls * 1.7, ls * 0.4]
                    out.append(dict(kernel="rbf", ls=l, lsb=lsb, metric=met, **{"def": d}, f=f))
                    for nu in NUS:
                        if ls in (0.3, 1.0, 7.5) or nu in (0.5, 1.5):
                            out.append(dict(kernel="matern", nu=nu, nub="fixed", ls=l, lsb=lsb, metric=met, **{"def": d}, f=f))
                    for nu in NUS_FREE:
                        out.append(dict(kernel="matern", nu=nu, nub=[0.1, 30.0], ls=l, lsb=lsb, metric=met, **{"def": d}, f=f))
    out = [s for s in out if not (TORCH and s["kernel"] == "matern" and gen(s["nu"], s["nub"]))]
    return out


def ok(got, want, rec, sig, rt=None):
    rec.trace()
    g, w = N(got), np.asarray(want)
    rt = rt or (1e-7 if FT == "64" else 3e-4)
    if g.shape != w.shape or not np.allclose(g.astype(float), w, rtol=rt, atol=rt * 1e-1):
        rec.fail(sig, diffmsg(g, w))
        return False
    rec.outcome((sig, round(float(np.sum(w)), 6)))
    return True


def cases(tier, env):
    out = []
    ss = specs(tier)
    for s in ss:
        out.append(dict(k="value", spec=s))
    # shapes
    for d in ("iso", "aniso"):
        for s in [dict(kernel="rbf", ls=0.8, f=2), dict(kernel="matern", nu=0.5, ls=0.8, f=2), dict(kernel="matern", nu=1.5, ls=0.8, f=2),
                  dict(kernel="matern", nu=2.5, ls=0.8, f=2), dict(kernel="matern", nu=math.inf, ls=0.8, f=2),
                  dict(kernel="matern", nu=0.7, ls=0.8, f=2), dict(kernel="matern", nu=0.7, nub=[0.1, 3.0], ls=0.8, f=2)]:
            if TORCH and s["kernel"] == "matern" and gen(s["nu"], s.get("nub", "fixed")):
                continue
            s = dict(s, **{"def": d})
            if d == "aniso":
                s["ls"] = [0.8, 0.5]
            out.append(dict(k="shape", spec=s))
    # anisotropy: every subset of free scales x every subset and order of keyword overrides
    for f in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for free in itertools.product([0, 1], repeat=f):
            for ker in ("rbf", "matern"):
                out.append(dict(k="aniso", f=f, free=list(free), ker=ker))
    for f in (5, 8, 9, 10, 11, 12, 13, 17, 20, 21, 40, 100, 101, 111):
        for ker in ("rbf", "matern"):
            out.append(dict(k="anisobig", f=f, ker=ker))
    # histories of set_params and calls with overrides
    for d in ("iso", "diso", "aniso"):
        for s in [dict(kernel="rbf", ls=0.8, f=2), dict(kernel="matern", nu=1.5, nub="fixed", ls=0.8, f=2)] + \
                 ([dict(kernel="matern", nu=0.9, nub=[0.2, 3.0], ls=0.8, f=2)] if not TORCH else []):
            for lsb in ("fixed", [0.01, 10.0]):
                s2 = dict(s, lsb=lsb, **{"def": d})
                if d == "aniso":
                    s2["ls"] = [0.8, 1.6]
                out.append(dict(k="hist", spec=s2, depth=4 if tier == "thorough" else 3))
    out += with_layouts([c for c in out if c["k"] == "shape" or (c["k"] == "anisobig" and c["f"] in (5, 11, 20)) or (c["k"] == "aniso" and c["f"] == 3)])
    return out


def diffs_for(spec, f):
    """difference tensor (m, f) covering the distance grid along several directions, in units of the length scale too"""
    ls = float(np.mean(spec_ls(spec, f)))
    dirs = [np.eye(f)[i] for i in range(f)] + [np.ones(f) / math.sqrt(f), -np.ones(f) / math.sqrt(f)]
    sc = np.concatenate([DGRID * ls, DGRID])
    return np.concatenate([s * np.array(dirs) for s in sc])     # (m, f)


def given(spec, diffs):
    """what the kernel is applied to"""
    if spec.get("def", "iso") != "iso":
        return diffs
    d2 = (diffs ** 2).sum(-1)
    m = spec.get("metric", "l2" if spec["kernel"] == "matern" else "F2")
    return np.sqrt(d2) if m == "l2" else d2


def full(spec):
    return dict(spec, metric=spec.get("metric", "l2" if spec["kernel"] == "matern" else "F2"))


def run(case, rec):
    from MuyGPyS.gp.hyperparameter import ScalarParam
    if case["k"] == "value":
        s = full(case["spec"])
        d = diffs_for(s, s["f"])
        d = d.reshape(1, len(d), s["f"])
        k = rec.call("construct", mk_kernel, s)
        x = A(given(s, d))
        before = N(x).copy()
        got = rec.call("kernel", k, x)
        rec.state(repr(sorted(s.items())))
        if not np.array_equal(before, N(x)):
            rec.fail("kernel.mutates-input")
        want = ref_k(s, d)
        rt = None
        if s["kernel"] == "matern" and gen(s["nu"], s["nub"]):
            # near zero the Bessel product cancels; tolerance covers distances of 1e-12 at smoothness 0.3
            rt = 1e-6 if FT == "64" else 2e-3
            if s["nu"] < 0.5:
                rt = 1e-5 if FT == "64" else 2e-2
        ok(got, want, rec, "kernel.value." + s["kernel"], rt)
        ok(rec.call("kernel", k, A(given(s, -d))), want, rec, "kernel.symmetric", rt)
        ok(k.Kout(), np.array(1.0), rec, "kernel.Kout")
        z = np.zeros((2, 3, 3, s["f"]))
        ok(rec.call("kernel", k, A(given(s, z))), np.ones((2, 3, 3)), rec, "kernel.zero", 1e-5 if FT == "64" else 2e-3)
        return
    if case["k"] == "shape":
        s = full(case["spec"])
        k = mk_kernel(s)
        for sh in [(1,), (5,), (1, 1), (1, 4), (3, 1), (4, 4), (1, 1, 1), (1, 2, 2), (3, 3, 3), (3, 2, 2), (2, 3, 3), (5, 17, 17), (2, 40, 40), (129, 2, 2), (1025, 3), (600, 5, 5), (4097, 3), (10001, 1), (2049, 2, 2), (5001, 2, 2), (3, 129, 129), (1, 257, 257)]:
            if len(sh) == 1 and s["def"] == "aniso" and False:
                continue
            m = int(np.prod(sh))
            d = (pts(m, 2) - 1.4).reshape(sh + (2,))
            d[..., 0].flat[0] = 0; d[..., 1].flat[0] = 0
            rec.state((repr(s), sh))
            ok(rec.call("kernel", k, A(given(s, d))), ref_k(s, d), rec, "kernel.shape", 1e-6 if FT == "64" else 2e-3)
            if not TORCH and len(sh) > 1:
                a = np.asfortranarray(given(s, d).astype(float))
                ok(rec.call("kernel", k, a), ref_k(s, d), rec, "kernel.layout", 1e-6)
        return
    if case["k"] == "aniso":
        f, free = case["f"], case["free"]
        s = dict(kernel=case["ker"], nu=1.5, ls=[0.5 + 0.45 * i for i in range(f)], lsb=[[0.01, 10.0] if b else "fixed" for b in free], f=f, **{"def": "aniso"})
        s = full(s)
        d = (pts(6, f) - 1.3).reshape(1, 6, f)
        k = mk_kernel(s)
        ok(rec.call("kernel", k, A(d)), ref_k(s, d), rec, "aniso.default")
        names = [f"length_scale{i}" for i in range(f)]
        want = [n for n, b in zip(names, free) if b]
        got = k.get_opt_params()
        if list(got[0]) != want:
            rec.fail("aniso.opt_names", f"{got[0]} instead of {want}")
        for sub in itertools.chain.from_iterable(itertools.permutations(range(f), r) for r in range(1, f + 1)):
            kw = {names[i]: 1.1 + 0.3 * i + 0.07 * j for j, i in enumerate(sub)}
            s2 = dict(s, ls=[kw.get(names[i], s["ls"][i]) for i in range(f)])
            rec.state((tuple(free), case["ker"], sub))
            if not ok(rec.call("kernel", k, A(d), **kw), ref_k(s2, d), rec, "aniso.override"):
                return
            if not ok(rec.call("kernel", k, A(d)), ref_k(s, d), rec, "aniso.after-override"):
                return
            k2 = mk_kernel(s)
            rec.call("set_params", k2.set_params, **{n: ScalarParam(v, (0.01, 10.0)) for n, v in kw.items()})
            if not ok(rec.call("kernel", k2, A(d)), ref_k(s2, d), rec, "aniso.set_params"):
                return
        return
    if case["k"] == "anisobig":
        f = case["f"]
        s = full(dict(kernel=case["ker"], nu=2.5, ls=[0.5 + 0.1 * ((7 * i) % f) for i in range(f)], lsb=[0.001, 1000.0], f=f, **{"def": "aniso"}))
        d = (pts(6, f, span=1.0) - 0.45).reshape(2, 3, f)
        k = mk_kernel(s)
        ok(rec.call("kernel", k, A(d)), ref_k(s, d), rec, "anisobig.default")
        names, params, bounds = k.get_opt_params()
        rec.trace()
        if list(names) != [f"length_scale{i}" for i in range(f)] or not np.allclose([float(p) for p in params], s["ls"]):
            rec.fail("anisobig.opt_params", f"{names}")
        for order in ("fwd", "rev", "sorted"):
            ks = sorted(names) if order == "sorted" else (list(names) if order == "fwd" else list(names)[::-1])
            kw = {n: 0.3 + 0.05 * int(n[12:]) for n in ks}
            s2 = dict(s, ls=[0.3 + 0.05 * i for i in range(f)])
            rec.state((f, order))
            ok(rec.call("kernel", k, A(d), **kw), ref_k(s2, d), rec, "anisobig.override")
        for i in range(f):
            s2 = dict(s, ls=[3.3 if j == i else l for j, l in enumerate(s["ls"])])
            rec.state((f, i))
            if not ok(rec.call("kernel", k, A(d), **{f"length_scale{i}": 3.3}), ref_k(s2, d), rec, "anisobig.single"):
                return
        return
    # histories
    s0 = full(case["spec"])
    aniso = s0["def"] == "aniso"
    d = np.concatenate([np.zeros((1, 2)), pts(5, 2) - 1.3]).reshape(1, 6, 2)
    x = A(given(s0, d))
    nus = [0.5, 1.5, 2.5] if (TORCH or s0.get("nub", "fixed") == "fixed") else [0.5, 0.9, 2.5]
    ops = []
    lsn = ["length_scale0", "length_scale1"] if aniso else ["length_scale"]
    for n in lsn:
        for v in (0.4, 1.9):
            ops.append(("set", n, v, "same"))
    ops.append(("set", lsn[-1], 0.6, "flip"))
    if s0["kernel"] == "matern":
        for v in nus:
            ops.append(("set", "smoothness", v, "same"))
        if not TORCH:
            ops.append(("set", "smoothness", 1.2, "flip"))
    ops.append(("call", {lsn[0]: 0.7}))
    if aniso:
        ops.append(("call", {lsn[1]: 0.9}))
        ops.append(("call", {lsn[1]: 0.9, lsn[0]: 0.2}))
    if s0["kernel"] == "matern" and not TORCH and s0.get("nub", "fixed") != "fixed":
        ops.append(("call", {"smoothness": 2.2}))
    ops.append(("make",))
    seen = {}
    for seq in itertools.product(range(len(ops)), repeat=case["depth"]):
        k = mk_kernel(s0)
        cur = dict(s0, ls=list(s0["ls"]) if aniso else s0["ls"])
        fixed = {n: (s0["lsb"] == "fixed") for n in lsn}
        if s0["kernel"] == "matern":
            fixed["smoothness"] = s0.get("nub", "fixed") == "fixed"
        for j in seq:
            op = ops[j]
            if op[0] == "set":
                fx = fixed[op[1]] if op[3] == "same" else (not fixed[op[1]])
                rec.call("set_params", k.set_params, **{op[1]: ScalarParam(op[2], "fixed" if fx else (0.01, 10.0))})
                fixed[op[1]] = fx
                if op[1] == "smoothness":
                    cur["nu"] = op[2]
                elif aniso:
                    cur["ls"][lsn.index(op[1])] = op[2]
                else:
                    cur["ls"] = op[2]
            elif op[0] == "call":
                c2 = dict(cur, ls=list(cur["ls"]) if aniso else cur["ls"])
                for n, v in op[1].items():
                    if n == "smoothness":
                        if fixed["smoothness"] and cur["nu"] in (0.5, 1.5, 2.5):
                            continue      # a fixed special smoothness has no smoothness argument to override
                        c2["nu"] = v
                    elif aniso:
                        c2["ls"][lsn.index(n)] = v
                    else:
                        c2["ls"] = v
                if not ok(rec.call("kernel", k, x, **op[1]), ref_k(c2, d), rec, "hist.call-override", 1e-6 if FT == "64" else 2e-3):
                    return
            if TORCH and cur["kernel"] == "matern" and not (fixed["smoothness"] and cur["nu"] in (.5, 1.5, 2.5)):
                break
            key = repr((cur, sorted(fixed.items())))
            rec.state((key, op[0]))
            if not ok(rec.call("kernel", k, x), ref_k(cur, d), rec, "hist." + op[0], 1e-6 if FT == "64" else 2e-3):
                rec.fail("hist.sequence", str([ops[q] for q in seq]))
                return
            names = [n for n in lsn + ["smoothness"] if n in fixed and not fixed[n]]
            if list(k.get_opt_params()[0]) != names:
                rec.fail("hist.opt_names", f"{k.get_opt_params()[0]} instead of {names} after {[ops[q] for q in seq]}")
                return
