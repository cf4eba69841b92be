"""C12: fast prediction. Every neighbor array over tiny training sets for the neighborhood update; every model specification on a
ladder of training, query, neighbor, feature and response sizes; every query of a grid for the workflow functions."""
import itertools
import seams
import numpy as np
from ref import *
import c03

SP = c03.SPECS


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for n in (2, 3, 4):
        for k in (1, 2, 3):
            out.append(dict(k="update", n=n, nn=k))
    out.append(dict(k="update-ladder"))
    for si, s in enumerate(SP):
        if not c03.usable(s):
            continue
        for n in (2, 3, 4, 5, 8, 10, 13):
            out.append(dict(k="size", s=si, n=n, nn=[1, 2, 3, 4, 5, 7], f=[1, 2, 3], r=[0, 1, 2, 3, 4, 5], b=[1, 2, 3, 5, n]))
        out.append(dict(k="rows", s=si, n=4, nn=2, r=2))
        out.append(dict(k="rows", s=si, n=5, nn=3, r=0))
    main = [0, 2, 6, 8] if not th else [i for i, s in enumerate(SP) if c03.usable(s)]
    for si in main:
        for n in (31, 32, 33, 63, 64, 65, 99, 100, 101, 128, 129, 200, 257, 500, 513, 1001, 1025):
            out.append(dict(k="size", s=si, n=n, nn=[1, 3, 6] + ([30] if n > 40 and n < 300 else []), f=[2], r=[0, 1, 3] if n < 400 else [0, 3], b=[1, 4, n] if n < 400 else [n]))
        for n in (2049, 4097):
            out.append(dict(k="size", s=si, n=n, nn=[2], f=[2], r=[n % 2048 if si else 0], b=[n + 7]))
        for k in (10, 15, 16, 17, 25, 31, 32, 33, 50, 64, 65, 100, 128):
            out.append(dict(k="size", s=si, n=k + 7, nn=[k], f=[3], r=[0, 1, 2] + ([k] if k < 34 else []), b=[1, 3, k]))
        for r in (6, 7, 8, 9, 10, 11, 16, 17, 32):
            out.append(dict(k="size", s=si, n=r + 5, nn=[3, r], f=[2], r=[r], b=[1, 3, r]))
    if not TORCH:
        for si in range(len(SP)):
            for n, k in ((4, 2), (5, 3), (6, 5), (9, 1), (12, 4)):
                out.append(dict(k="workflow", s=si, n=n, nn=k))
        out.append(dict(k="do"))
    out += with_layouts([c for c in out if (c["k"] == "update" and c["n"] < 4) or (c["k"] == "size" and c["n"] == 4 and len(c["r"]) > 3)])
    return out


def data(n, f, b, r):
    """training points, targets and queries, without ties in the nearest neighbor"""
    train = pts(n, f)
    q = pts(b, f, 0.137)
    y = vals(n, max(r, 1))
    if r == 0:
        y = y[:, 0]
    if FT == "32":
        train, q, y = (a.astype(np.float32).astype(float) for a in (train, q, y))
    return train, q, y


def spec_for(s, f, n, k):
    return c03.spec_for(s, f, n, k)


def ref_coeffs(spec, train, y, nnf):
    Kin = ref_k(spec, pair_diffs(train, nnf))
    n, k = nnf.shape
    nd = noise_diag(spec.get("noise", {"t": "null"}), n, k)
    t = y[nnf].reshape(n, k, -1)
    return np.stack([np.linalg.solve(Kin[i] + np.diag(nd[i]), t[i]) for i in range(n)])


def run(case, rec):
    from MuyGPyS.gp.tensors import fast_nn_update, make_fast_predict_tensors
    kind = case["k"]
    if kind == "update":
        n, k = case["n"], case["nn"]
        train = A(pts(n, 2)); y = A(vals(n, 2)); y1 = A(vals(n, 1)[:, 0])
        for flat in itertools.product(range(n), repeat=n * k) if n ** (n * k) <= 20000 else [tuple((i * 7 + j * (s + 1) + s) % n for i in range(n) for j in range(k)) for s in range(60)]:
            nn = np.array(flat).reshape(n, k)
            w = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
            got = rec.call("fast_nn_update", fast_nn_update, I(nn))
            rec.state((n, k, flat)); rec.trace()
            if not eq(got, w):
                rec.fail("fast_nn_update", f"{N(got).tolist()} for {nn.tolist()}")
                return
            if "int64" not in str(N(got).dtype):
                rec.fail("fast_nn_update.dtype", N(got).dtype); return
        for s in range(40):
            nn = np.array([(i * 7 + j * (s + 1) + s) % n for i in range(n) for j in range(k)]).reshape(n, k)
            w = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
            for yy in (y, y1):
                p, t = rec.call("make_fast_predict_tensors", make_fast_predict_tensors, I(nn), train, yy)
                rec.trace()
                if not close(p, pair_diffs(N(train), w)) or not eq(t, N(yy)[w]):
                    rec.fail("make_fast_predict_tensors", f"{diffmsg(p, pair_diffs(N(train), w))} for {nn.tolist()}"); return
        return
    if kind == "update-ladder":
        for n, k, f in itertools.product((1, 2, 5, 10, 33, 64, 101, 257, 1025, 4097, 10001, 40001), (1, 2, 3, 5, 10, 32), (1, 2, 5)):
            nn = np.array([[(i * 7 + j * 3 + 1) % n for j in range(k)] for i in range(n)])
            w = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
            got = rec.call("fast_nn_update", fast_nn_update, I(nn))
            rec.state((n, k, f)); rec.trace()
            if not eq(got, w):
                rec.fail("fast_nn_update", f"n {n} k {k}")
            if n <= 257 and k <= 10:
                p, t = rec.call("make_fast_predict_tensors", make_fast_predict_tensors, I(nn), A(pts(n, f)), A(vals(n, 2)))
                if not close(p, pair_diffs(N(A(pts(n, f))), w)) or not eq(t, N(A(vals(n, 2)))[w]):
                    rec.fail("make_fast_predict_tensors", f"n {n} k {k} f {f}")
        return
    if kind == "do":
        return do(case, rec)
    s = SP[case["s"]]
    if kind == "size":
        for k, f, r, b in itertools.product(case["nn"], case["f"], case["r"], case["b"]):
            n = case["n"]
            if k > n - 1:
                continue
            spec = spec_for(s, f, n, k)
            train, q, y = data(n, f, b, r)
            nn = nbrs(train, train, k, skip=np.arange(n))
            nnf = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
            if not c03.cond_ok(spec, train, nnf):
                rec.note("ill-conditioned skipped"); continue
            rec.state((case["s"], n, k, f, r, b))
            if not predict(rec, spec, train, q, y, nnf, case, f"train {n} neighbors {k} features {f} responses {r} queries {b}"):
                return
        return
    if kind == "rows":
        # coefficients of any sequence of training points are the rows of the full coefficient tensor
        n, k, r = case["n"], case["nn"], case["r"]
        spec = spec_for(s, 2, n, k)
        train, q, y = data(n, 2, 3, r)
        nn = nbrs(train, train, k, skip=np.arange(n))
        nnf = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
        if not c03.cond_ok(spec, train, nnf):
            return
        W = ref_coeffs(spec, train, y, nnf)
        het = spec.get("noise", {}).get("t") == "hetero"
        for m_ in range(1, n + 1):
            for rows in itertools.permutations(range(n), m_):
                rows = list(rows)
                sp_ = dict(spec, noise=dict(t="hetero", v=np.asarray(spec["noise"]["v"])[rows].tolist())) if het else spec
                m = mk_model(sp_)
                pr = tensors(sp_, train[rows], train, nnf[rows])[1]
                c = rec.call("fast_coefficients", m.fast_coefficients, rec.call("kernel", m.kernel, A(pr)), A(y[nnf[rows]]))
                rec.state((case["s"], n, tuple(rows))); rec.trace()
                if not closev(c, W[rows], **c03.tol(spec, k)):
                    rec.fail("fast_coefficients.rows", f"rows {rows}: {diffmsg(N(c).ravel(), W[rows].ravel())}"); return
        return
    return workflow(case, rec, s)


def predict(rec, spec, train, q, y, nnf, case, where):
    n, k = nnf.shape
    b = len(q)
    t = c03.tol(spec, k)
    # a posterior mean of well separated points only: coefficients grow with the condition number
    m = rec.call("construct", mk_model, spec)
    pr = tensors(spec, train, train, nnf)[1]
    Kin = rec.call("kernel", m.kernel, A(pr))
    C = rec.call("fast_coefficients", m.fast_coefficients, Kin, A(y[nnf]))
    W = ref_coeffs(spec, train, y, nnf)
    rec.trace()
    ok = True
    ct = dict(rtol=t["rtol"], atol=t["atol"] * max(1.0, np.abs(W).max()))
    want_shape = (n, k) if y.ndim == 1 or y.shape[1] == 1 else (n, k, y.shape[1])
    if not closev(C, W, **ct) or N(C).size != W.size:
        rec.fail("fast_coefficients.size", f"{where}: {diffmsg(N(C).ravel(), W.ravel())}"); ok = False
    near = nbrs(train, q, 1)[:, 0]
    nnq = nnf[near]
    cr = tensors(spec, q, train, nnq)[0]
    Kc = rec.call("kernel", m.kernel, A(cr))
    fast = rec.call("fast_posterior_mean", m.fast_posterior_mean, Kc, C[I(near)])
    sp_ = spec
    if spec.get("noise", {}).get("t") == "hetero":
        sp_ = dict(spec, noise=dict(t="hetero", v=np.asarray(spec["noise"]["v"])[near].tolist()))
    m2 = mk_model(sp_)
    ordinary = rec.call("posterior_mean", m2.posterior_mean, m2.kernel(A(tensors(sp_, q, train, nnq)[1])), m2.kernel(A(cr)), A(y[nnq]))
    want, _ = ref_post(sp_, ref_k(sp_, pair_diffs(train, nnq)), ref_k(sp_, cross_diffs(q, train, nnq)), y[nnq], sp_.get("noise", {"t": "null"}))
    rec.trace(2)
    pt = dict(rtol=ct["rtol"], atol=ct["atol"])
    if not closev(fast, want, **pt):
        rec.fail("fast_posterior_mean.size", f"{where}: {diffmsg(N(fast).ravel(), want.ravel())}"); ok = False
    if not closev(fast, ordinary, **pt):
        rec.fail("fast_posterior_mean.ordinary", f"{where}: {diffmsg(N(fast).ravel(), N(ordinary).ravel())}"); ok = False
    r = 0 if y.ndim == 1 else y.shape[1]
    if N(fast).shape not in ({(b,)} if r == 0 else {(b,), (b, 1)} if r == 1 else {(b, r)}):
        rec.fail("fast_posterior_mean.shape", f"{where}: {N(fast).shape}"); ok = False
    rec.outcome((N(fast).shape, N(C).shape))
    return ok


def double_update(spec, train, q, y, nn, lookup_near):
    """the value of the recorded defect: coefficients of [i, n1, ..] combined with the cross covariance of [i, i, n1, ..]"""
    n, k = nn.shape
    nnf = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
    nn2 = np.concatenate([np.arange(n)[:, None], nnf[:, :-1]], axis=1)
    W = ref_coeffs(spec, train, y, nnf)
    Kc = ref_k(spec, cross_diffs(q, train, nn2[lookup_near]))
    return np.einsum("ij,ijk->ik", Kc, W[lookup_near])


def workflow(case, rec, s):
    from MuyGPyS.neighbors import NN_Wrapper
    from MuyGPyS.examples.fast_posterior_mean import make_fast_regressor, fast_posterior_mean_any
    from MuyGPyS.examples.from_indices import fast_posterior_mean_from_indices
    n, k = case["n"], case["nn"]
    for f, r in itertools.product((1, 2), (0, 1, 2, 3)):
        spec = spec_for(s, f, n, k)
        train = pts(n, f); y = vals(n, max(r, 1))
        y = y[:, 0] if r == 0 else y
        nn = nbrs(train, train, k, skip=np.arange(n))
        nnf = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
        if not c03.cond_ok(spec, train, nnf):
            continue
        m = mk_model(spec)
        lk = NN_Wrapper(A(train), k, algorithm="brute")
        C, idx = rec.call("make_fast_regressor", make_fast_regressor, m, lk, A(train), A(y))
        W = ref_coeffs(spec, train, y, nnf)
        rec.trace()
        if not eq(idx, nnf):
            rec.fail("make_fast_regressor.neighbors", f"{N(idx).tolist()} instead of {nnf.tolist()}"); return
        ct = dict(rtol=1e-6, atol=1e-6 * max(1.0, np.abs(W).max()))
        if not closev(C, W, **ct):
            rec.fail("make_fast_regressor.coefficients", diffmsg(N(C).ravel(), W.ravel())); return
        for b in (1, 2, 3, 7, 20):
            q = pts(b, f, 0.137 + 0.01 * b)
            near = nbrs(train, q, 1)[:, 0]
            nnq = nnf[near]
            sp_ = dict(spec, noise=dict(t="hetero", v=np.asarray(spec["noise"]["v"])[near].tolist())) if spec.get("noise", {}).get("t") == "hetero" else spec
            want, _ = ref_post(sp_, ref_k(sp_, pair_diffs(train, nnq)), ref_k(sp_, cross_diffs(q, train, nnq)), y[nnq], sp_.get("noise", {"t": "null"}))
            rec.state((case["s"], n, k, f, r, b)); rec.trace(2)
            for rows in ([list(range(b)), list(reversed(range(b))), [0], [b - 1, 0]]):
                got = rec.call("fast_from_indices", fast_posterior_mean_from_indices, m, I(rows), I(nnq[rows]), A(q), A(train), I(near[rows]), C)
                if not closev(got, want[rows], **ct):
                    rec.fail("fast_posterior_mean_from_indices", f"rows {rows}: {diffmsg(N(got).ravel(), want[rows].ravel())}"); return
            got, C2, timing = rec.call("fast_posterior_mean_any", fast_posterior_mean_any, m, A(q), A(train), lk, A(y))
            if not closev(C2, W, **ct):
                rec.fail("fast_posterior_mean_any.coefficients", diffmsg(N(C2).ravel(), W.ravel())); return
            judge_any(rec, got, want, lambda: double_update(spec, train, q, y, nn, near), ct, f"train {n} neighbors {k} features {f} responses {r} queries {b}")


def judge_any(rec, got, want, buggy, ct, where):
    if closev(got, want, **ct):
        rec.note("workflow agrees")
    elif closev(got, buggy(), **ct):
        rec.fail("fast_posterior_mean_any:neighborhood-updated-twice", f"{where}: {diffmsg(N(got).ravel(), want.ravel())}")
    else:
        rec.fail("fast_posterior_mean_any", f"{where}: {diffmsg(N(got).ravel(), want.ravel())}")


def do(case, rec):
    """the one-call workflow with a fully fixed model, univariate and multivariate"""
    from MuyGPyS.examples.fast_posterior_mean import do_fast_posterior_mean
    for si, f, k, b in itertools.product((0, 2, 3, 8), (1, 2), (1, 2, 4), (1, 2, 5)):
        n = 9
        spec = spec_for(SP[si], f, n, k)
        train = pts(n, f)
        q = pts(b, f, 0.137)
        nn = nbrs(train, train, k, skip=np.arange(n))
        nnf = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
        near = nbrs(train, q, 1)[:, 0]
        nnq = nnf[near]
        for r in (0, 1, 2):
            y = vals(n, max(r, 1)); y = y[:, 0] if r == 0 else y
            W = ref_coeffs(spec, train, y, nnf)
            ct = dict(rtol=1e-6, atol=1e-6 * max(1.0, np.abs(W).max()))
            want, _ = ref_post(spec, ref_k(spec, pair_diffs(train, nnq)), ref_k(spec, cross_diffs(q, train, nnq)), y[nnq], spec.get("noise", {"t": "null"}))
            modes = ["uni"] + (["multi"] if r >= 2 and is_iso(spec) else [])
            for mode in modes:
                kw = mk_args(spec) if mode == "uni" else [mk_args(spec) for _ in range(r)]
                model, lk, got, C, timing = rec.call("do_fast_posterior_mean", do_fast_posterior_mean, A(q), A(train), A(y), nn_count=k, batch_count=3,
                                                      k_kwargs=kw, nn_kwargs=dict(algorithm="brute"))
                rec.state((si, f, k, b, r, mode)); rec.trace()
                if not closev(C, W, **ct):
                    rec.fail("do_fast_posterior_mean.coefficients", f"{mode}: {diffmsg(N(C).ravel(), W.ravel())}"); return
                judge_any(rec, got, want, lambda: double_update(spec, train, q, y, nn, near), ct, f"do: {mode} features {f} neighbors {k} queries {b} responses {r}")
