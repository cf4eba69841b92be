"""C03: posterior mean and variance against one kriging solve per query (reference), for every spec on a size ladder, and for
all batch orders, batch splits, neighbor orders, companion sets and response subsets of small problems."""
import itertools
import numpy as np
from ref import *

SPECS = [
    dict(kernel="rbf", ls=0.9, noise=dict(t="homo", v=1e-3)),
    dict(kernel="rbf", ls=0.7, noise=dict(t="homo", v=1e-3), scale=dict(t="fixed", val=2.5)),
    dict(kernel="matern", nu=0.5, ls=1.3, noise=dict(t="homo", v=1e-2), scale=dict(t="analytic", val=0.7)),
    dict(kernel="matern", nu=1.5, ls=0.8, noise=dict(t="homo", v=1e-4), scale=dict(t="down", val=3.0)),
    dict(kernel="matern", nu=2.5, ls=0.8, noise=dict(t="null")),
    dict(kernel="matern", nu=1.5, ls=0.8),
    dict(kernel="matern", nu=0.5, ls=0.6, noise=dict(t="hetero"), scale=dict(t="fixed", val=4.0)),
    dict(kernel="rbf", ls=1.1, noise=dict(t="hetero")),
    dict(kernel="matern", nu=1.5, ls="aniso", noise=dict(t="homo", v=1e-3), **{"def": "aniso"}),
    dict(kernel="rbf", ls=0.8, noise=dict(t="homo", v=0.05), **{"def": "diso"}),
    dict(kernel="matern", nu=0.8, nub=[0.1, 3.0], ls=0.8, noise=dict(t="homo", v=1e-3, b=[1e-5, 1.0]), lsb=[0.1, 5.0]),
    dict(kernel="matern", nu=float("inf"), ls=0.9, noise=dict(t="homo", v=1e-2)),
]
BL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049]
KL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 30, 31, 32, 33, 40, 48, 50, 63, 64, 65, 99, 100, 101, 128]
RL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32]


def usable(s):
    return not (TORCH and s["kernel"] == "matern" and s["nu"] not in (0.5, 1.5, 2.5, float("inf")))


def spec_for(s, f, b, k):
    s = json.loads(json.dumps(s))
    if s["kernel"] == "matern" and s["nu"] == float("inf"):
        s["nu"] = float("inf")
    if s["ls"] == "aniso":
        s["ls"] = [0.7 + 0.3 * ((i * 5) % 7) / 3 for i in range(f)]
    if s.get("noise", {}).get("t") == "hetero":
        i = np.arange(b)[:, None]; j = np.arange(k)[None, :]
        s["noise"] = dict(t="hetero", v=(1e-3 * (1 + i % 17 + 0.37 * j)).tolist())
    return s


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for si, s in enumerate(SPECS):
        if not usable(s):
            continue
        out.append(dict(k="perm", s=si, b=3, nn=3, f=2, r=2))
        out.append(dict(k="perm", s=si, b=4, nn=2, f=1, r=1))
        out.append(dict(k="perm", s=si, b=2, nn=4, f=3, r=0))
        if th:
            out.append(dict(k="perm", s=si, b=5, nn=5, f=3, r=2))
        out.append(dict(k="interp", s=si))
        out.append(dict(k="scale", s=si))
        out.append(dict(k="targets", s=si))
        for b in [1, 2, 3, 4, 5, 8]:
            out.append(dict(k="size", s=si, b=[b], nn=[1, 2, 3, 4, 5, 8], f=[1, 2], r=[0, 1, 2, 3, 4, 5, 8]))
        out.append(dict(k="size", s=si, b=[2, 10], nn=[10], f=[1, 3, 8, 12], r=[0, 1, 10, 3]))
    main = [0, 2, 6, 8] if not th else [i for i, s in enumerate(SPECS) if usable(s)]
    for si in main:
        for b in BL:
            out.append(dict(k="size", s=si, b=[b], nn=[1, 3, 6], f=[2], r=[0, 1, 3]))
            if b <= 129:
                out.append(dict(k="size", s=si, b=[b], nn=[b], f=[2], r=[0, 1] + ([b] if b <= 33 else [])))
        for b in [4095, 4096, 4097, 5001, 8193, 10001, 16385]:
            out.append(dict(k="size", s=si, b=[b], nn=[2], f=[2], r=[b % 3]))
        for k in KL:
            out.append(dict(k="size", s=si, b=[1, 2, 3], nn=[k], f=[3], r=[0, 1, 2] + ([k] if k < 40 else [])))
        for k in (199, 256, 257, 300, 513):
            out.append(dict(k="size", s=si, b=[1, 2], nn=[k], f=[3], r=[0, 2]))
        for r in RL:
            out.append(dict(k="size", s=si, b=[1, 2, 5, max(r, 1)], nn=[3, 4, max(r, 1)], f=[2], r=[r]))
    out += with_layouts([dict(k="size", s=si, b=b, nn=[1, 3, 4], f=[2], r=[0, 1, 2, 3]) for si in range(len(SPECS)) if usable(SPECS[si]) for b in ([1, 2], [3, 4], [16])])
    return out


def problem(s, b, k, f, r, n=None):
    n = n or max(3 * k, 24)
    train = pts(n, f)
    q = pts(b, f, 0.137)
    nn = nbrs(train, q, k)
    y = vals(n, max(r, 1))
    if r == 0:
        y = y[:, 0]
    return train, q, nn, y


def predict(rec, m, spec, train, q, nn, y):
    cr, pr = tensors(spec, q, train, nn)
    Kin = rec.call("kernel", m.kernel, A(pr)); Kc = rec.call("kernel", m.kernel, A(cr))
    mu = rec.call("posterior_mean", m.posterior_mean, Kin, Kc, A(y[nn]))
    v = rec.call("posterior_variance", m.posterior_variance, Kin, Kc)
    return mu, v


def want(spec, train, q, nn, y):
    Kin = ref_k(spec, pair_diffs(train, nn)); Kc = ref_k(spec, cross_diffs(q, train, nn))
    sc = spec.get("scale", {}).get("val", 1.0)
    mu, v = ref_post(spec, Kin, Kc, y[nn], spec.get("noise", dict(t="homo", v=0.0)), sc)
    return (mu[:, 0] if y.ndim == 1 else mu), v


def tol(spec, k):
    n = spec.get("noise", {"t": "null"})
    small = n["t"] == "null" or (n["t"] == "homo" and n["v"] < 1e-3)
    if FT == "64":
        return dict(rtol=1e-6 if not small else 1e-5, atol=1e-6 if not small else 1e-5)
    return dict(rtol=2e-2 if not small else 0.2, atol=2e-2 if not small else 0.3)


def cmp(rec, sig, got, w, t):
    rec.trace()
    if not close(got, w, **t):
        rec.fail(sig, diffmsg(got, w))
        return False
    rec.outcome((sig, N(got).shape))
    return True


def cond_ok(spec, train, nn):
    """noise-free systems of close points are not well enough conditioned to compare"""
    n = spec.get("noise", {"t": "null"})
    if n["t"] == "hetero" or (n["t"] == "homo" and n["v"] >= 1e-3):
        return True
    K = ref_k(spec, pair_diffs(train, nn)) + noise_diag(n, len(nn), nn.shape[1])[:, :, None] * np.eye(nn.shape[1])
    return np.linalg.cond(K).max() < (1e7 if FT == "64" else 1e3)


def run(case, rec):
    s = SPECS[case["s"]]
    if case["k"] == "size":
        for b, k, f, r in itertools.product(case["b"], case["nn"], case["f"], case["r"]):
            spec = spec_for(s, f, b, k)
            train, q, nn, y = problem(spec, b, k, f, r)
            if FT == "32":
                train, q, y = (a.astype(np.float32).astype(float) for a in (train, q, y))
            if not cond_ok(spec, train, nn):
                rec.note("ill-conditioned skipped")
                continue
            m = rec.call("construct", mk_model, spec)
            mu, v = predict(rec, m, spec, train, q, nn, y)
            wm, wv = want(spec, train, q, nn, y)
            rec.state((case["s"], b, k, f, r))
            if not cmp(rec, "posterior_mean.size", mu, wm, tol(spec, k)):
                rec.fail("posterior_mean.at", f"batch {b} neighbors {k} features {f} responses {r}")
            if not cmp(rec, "posterior_variance.size", v, wv, tol(spec, k)):
                rec.fail("posterior_variance.at", f"batch {b} neighbors {k} features {f} responses {r}")
            sc = spec.get("scale", {}).get("val", 1.0)
            if N(v).max() > sc * (1 + 1e-6):
                rec.fail("posterior_variance.above-prior", show(v))
        return
    if case["k"] == "interp":
        # with no noise a neighbor that coincides with the query gives its own target and no variance
        for f, k, r in itertools.product((1, 2), (1, 2, 3, 5), (0, 1, 2, 3)):
            spec = spec_for(dict(s, noise=dict(t="null")) if case["s"] % 2 else dict(s, noise=dict(t="homo", v=0.0)), f, 6, k)
            train = pts(30, f, span=12.0)
            q = train[[3, 7, 11, 0, 29, 15]]
            nn = nbrs(train, q, k)
            y = vals(30, max(r, 1))
            y = y[:, 0] if r == 0 else y
            if not cond_ok(spec, train, nn):
                continue
            for shift in range(k):
                nn2 = np.roll(nn, shift, axis=1)
                m = rec.call("construct", mk_model, spec)
                mu, v = predict(rec, m, spec, train, q, nn2, y)
                rec.state((case["s"], f, k, r, shift))
                cmp(rec, "posterior_mean.interpolates", mu, y[[3, 7, 11, 0, 29, 15]], tol(spec, k))
                cmp(rec, "posterior_variance.zero-at-neighbor", v, np.zeros(6), tol(spec, k))
        return
    if case["k"] == "scale":
        # the scale multiplies the variance and leaves the mean alone
        for val in (0.1, 1.0, 7.0):
            for t in ("fixed", "analytic", "down"):
                spec = spec_for(dict(s, scale=dict(t=t, val=val)), 2, 4, 3)
                train, q, nn, y = problem(spec, 4, 3, 2, 2)
                if not cond_ok(spec, train, nn):
                    continue
                m = mk_model(spec)
                mu, v = predict(rec, m, spec, train, q, nn, y)
                wm, wv = want(spec, train, q, nn, y)
                rec.state((case["s"], val, t))
                cmp(rec, "scale.mean", mu, wm, tol(spec, 3)); cmp(rec, "scale.variance", v, wv, tol(spec, 3))
        return
    if case["k"] == "targets":
        # the mean is linear in the targets of the query's own neighborhood: magnitudes, offsets, zeros, one query's unusable targets
        for (b, k), r in itertools.product(((1, 3), (4, 3), (5, 1), (3, 5), (0, 3)), (0, 1, 2, 3)):
            spec = spec_for(s, 2, b, k)
            n = max(b * k + 2, 12)
            train, q = pts(n, 2), pts(b, 2, 0.137)
            # neighborhoods that share no point
            nn = np.array([[(i * k + j) for j in range(k)] for i in range(b)], dtype=int).reshape(b, k)
            y = vals(n, max(r, 1))
            y = y[:, 0] if r == 0 else y
            if FT == "32":
                train, q, y = (a.astype(np.float32).astype(float) for a in (train, q, y))
            if b and not cond_ok(spec, train, nn):
                continue
            m = rec.call("construct", mk_model, spec)
            if b == 0:
                if spec.get("noise", {}).get("t") == "hetero":
                    continue
                mu, v = predict(rec, m, spec, train, q, nn, y)
                rec.state((case["s"], "empty", k, r)); rec.trace()
                if N(mu).size or N(v).size or len(mu) or len(v):
                    rec.fail("empty", f"{N(mu).shape} {N(v).shape} for no query")
                continue
            wm, wv = want(spec, train, q, nn, y)
            for what in (0.0, 1e-10, 1e10, -1.0) + ((1e-100, 1e100) if FT == "64" else ()):
                mu, v = predict(rec, m, spec, train, q, nn, y * what)
                rec.state((case["s"], b, k, r, "times", what))
                if not (cmp(rec, "targets.magnitude", N(mu).astype(float) / (what or 1.0), wm * (what != 0), tol(spec, k)) and cmp(rec, "targets.variance", v, wv, tol(spec, k))):
                    rec.fail("targets.at", f"batch {b} neighbors {k} responses {r} targets times {what}"); return
            w5 = want(spec, train, q, nn, y + 50.0)[0]
            if not cmp(rec, "targets.offset", N(predict(rec, m, spec, train, q, nn, y + 50.0)[0]) / 50, w5 / 50, tol(spec, k)):
                return
            for bad in (float("nan"), float("inf"), 1e30 if FT == "32" else 1e200):
                for i in range(b):
                    y2 = y.copy()
                    y2[nn[i]] = bad
                    mu, v = predict(rec, m, spec, train, q, nn, y2)
                    rest = [j for j in range(b) if j != i]
                    rec.state((case["s"], b, k, r, repr(bad), i))
                    if not (cmp(rec, "targets.companion", N(mu)[rest], wm[rest], tol(spec, k)) and cmp(rec, "targets.variance", v, wv, tol(spec, k))):
                        rec.fail("targets.at", f"batch {b} neighbors {k} responses {r}: {bad} among the targets of query {i}"); return
        return
    # permutations
    b, k, f, r = (case[x] for x in ("b", "nn", "f", "r"))
    spec = spec_for(s, f, b, k)
    train, q, nn, y = problem(spec, b, k, f, r)
    het = spec.get("noise", {}).get("t") == "hetero"
    wm, wv = want(spec, train, q, nn, y)
    if not cond_ok(spec, train, nn):
        return
    t = tol(spec, k)

    def go(sig, rows, nnp, cols, nv=None):
        sp_ = dict(spec, noise=dict(t="hetero", v=nv.tolist())) if het else spec
        m = mk_model(sp_)
        yy = y if cols is None else y[:, cols]
        mu, v = predict(rec, m, sp_, train, q[rows], nnp, yy)
        w = wm[rows] if cols is None else wm[rows][:, cols]
        a = cmp(rec, sig + ".mean", mu, w, t)
        c = cmp(rec, sig + ".variance", v, wv[rows], t)
        if not (a and c):
            rec.fail(sig + ".at", f"rows {rows} neighbors {nnp.tolist()} responses {cols}")
        return a and c
    nvar = np.asarray(spec["noise"]["v"]) if het else None
    # neighbor orders: every combination of orders per query for tiny ones, else the same order for all
    perms = list(itertools.permutations(range(k)))
    combos = itertools.product(perms, repeat=b) if len(perms) ** b <= 250 else ((p,) * b for p in perms)
    for combo in combos:
        nnp = np.array([nn[i][list(combo[i])] for i in range(b)])
        nv = np.array([nvar[i][list(combo[i])] for i in range(b)]) if het else None
        rec.state((case["s"], b, k, "nbr", combo))
        if not go("neighbor-order", list(range(b)), nnp, None, nv):
            return
    # every non-empty sequence of distinct queries (all subsets in all orders) plus duplicates
    for m_ in range(1, b + 1):
        for rows in itertools.permutations(range(b), m_):
            rec.state((case["s"], b, k, "rows", rows))
            if not go("batch", list(rows), nn[list(rows)], None, nvar[list(rows)] if het else None):
                return
    for rows in itertools.product(range(b), repeat=2):
        if not go("batch-repeat", list(rows), nn[list(rows)], None, nvar[list(rows)] if het else None):
            return
    # responses predicted together or apart
    if r >= 1:
        for m_ in range(1, r + 1):
            for cols in itertools.permutations(range(r), m_):
                rec.state((case["s"], b, k, "cols", cols))
                if not go("responses", list(range(b)), nn, list(cols), nvar):
                    return
