"""C10: nearest-neighbor contract on every small integer point configuration, all neighbor counts, queries, batches and algorithms."""
import itertools
import numpy as np
from ref import *

ALGS = ["auto", "ball_tree", "kd_tree", "brute"]
METRICS = [{}, dict(p=1), dict(p=3), dict(metric="manhattan"), dict(metric="chebyshev"), dict(metric="euclidean"), dict(metric="l2"), dict(metric="minkowski", p=2), dict(metric="sqeuclidean", algorithm="brute"), dict(metric="minkowski", p=4)]


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for n in (2, 3, 4, 5) + ((6,) if th else ()):
        for first in range(3):
            for a in range(1, n):
                out.append(dict(k="conf", f=1, n=n, first=first, nn=a, vals=3))
    for n in (2, 3, 4) + ((5,) if th else ()):
        for first in range(6):
            for a in range(1, n):
                out.append(dict(k="conf", f=2, n=n, first=first, nn=a, vals=6))
    for n in (2, 3, 4, 5, 6):
        out.append(dict(k="batch", n=n))
    for i in range(len(METRICS)):
        out.append(dict(k="metric", m=i))
    for n, f, kk in [(12, 1, 5), (12, 2, 11), (30, 3, 10), (31, 1, 30), (33, 4, 8), (64, 2, 5), (65, 5, 20), (100, 3, 99), (100, 2, 50), (129, 8, 10), (200, 12, 25), (257, 2, 30), (500, 3, 7), (513, 1, 12), (1000, 6, 40), (1025, 2, 3), (2049, 3, 4), (5001, 2, 5)] + ([(4097, 3, 30), (10001, 4, 10)] if th else []):
        out.append(dict(k="ladder", n=n, f=f, nn=kk))
    for n in range(2, 11):
        out.append(dict(k="hnsw", n=n))
    for n, f, kk in [(64, 2, 5), (200, 3, 9), (500, 4, 6)]:
        out.append(dict(k="hnswbig", n=n, f=f, nn=kk))
    out.append(dict(k="reject"))
    out += with_layouts([c for c in out if c["k"] in ("batch", "metric") or (c["k"] == "conf" and c["n"] == 3) or (c["k"] == "ladder" and c["n"] < 70) or (c["k"] == "hnsw" and c["n"] < 6)])
    return out


def dist(q, t, spec=None):
    """reference distances (m, n): squared euclidean by default"""
    spec = spec or {}
    d = np.abs(q[:, None, :] - t[None, :, :])
    m, p = spec.get("metric", "minkowski"), spec.get("p", 2)
    if m == "manhattan" or (m == "minkowski" and p == 1):
        return d.sum(-1)
    if m == "chebyshev":
        return d.max(-1)
    if m == "minkowski" and p != 2:
        return (d ** p).sum(-1) ** (1.0 / p)
    return (d ** 2).sum(-1)


def contract(rec, sig, idx, dd, q, t, k, spec=None, own=None, exact=True, tol=1e-7):
    """one batch of answers"""
    rec.trace()
    idx, dd = N(idx), N(dd)
    m = len(q)
    if idx.shape != (m, k) or dd.shape != (m, k):
        rec.fail(sig + ".shape", f"shapes {idx.shape} {dd.shape} instead of {(m, k)}")
        return False
    D = dist(q, t, spec)
    if str(idx.dtype) != "int64":
        rec.fail(sig + ".dtype", f"indices of type {idx.dtype}")
    euclid = (spec or {}).get("metric") in ("euclidean", "l2")
    for i in range(m):
        row = idx[i].tolist()
        if min(row) < 0 or max(row) >= len(t):
            rec.fail(sig + ".range", f"{row}"); return False
        if len(set(row)) != k:
            rec.fail(sig + ".distinct", f"{row} for query {q[i].tolist()} in {t.tolist()}"[:500]); return False
        if own is not None and own[i] in row:
            rec.fail(sig + ".self", f"{row} contains the queried point {own[i]} in {t.tolist()}"[:500]); return False
        dr = D[i][row]
        ok = np.allclose(dd[i], dr, rtol=tol, atol=tol) or (euclid and np.allclose(dd[i], np.sqrt(dr), rtol=tol, atol=tol))
        if not ok:
            rec.fail(sig + ".dists", f"distances {dd[i].tolist()} instead of {dr.tolist()} for neighbors {row} of {q[i].tolist()} in {t.tolist()}"[:500]); return False
        if np.any(np.diff(dd[i]) < -tol):
            rec.fail(sig + ".order", f"{dd[i].tolist()}"); return False
        if exact:
            oth = D[i] if own is None else np.delete(D[i], own[i])
            if not np.allclose(np.sort(dr), np.sort(oth)[:k], rtol=tol, atol=tol):
                rec.fail(sig + ".nearest", f"neighbors {row} at {dr.tolist()} of {q[i].tolist()} in {t.tolist()}, nearest are at {np.sort(oth)[:k].tolist()}"[:500]); return False
        rec.outcome((sig, tuple(row)) if len(t) < 20 else sig)
    return True


def run(case, rec):
    from MuyGPyS.neighbors import NN_Wrapper
    k_ = case["k"]
    if k_ == "conf":
        f, n, k = case["f"], case["n"], case["nn"]
        alpha = [(float(v),) for v in range(3)] if f == 1 else [(float(a), float(b)) for a in range(3) for b in range(2)]
        qs = np.array([(v,) for v in (-1.0, 0.0, 0.5, 1.0, 1.25, 2.0, 3.5)]) if f == 1 else np.array([(a, b) for a in (-1.0, 0.0, 0.4, 1.0, 2.0) for b in (0.0, 0.3, 1.0)])
        for rest in itertools.product(range(len(alpha)), repeat=n - 1):
            t = np.array([alpha[case["first"]]] + [alpha[j] for j in rest])
            alg = ALGS[1:] if n <= 4 and f == 1 else [ALGS[sum(rest) % 4]]
            for a in alg:
                w = rec.call("NN_Wrapper", NN_Wrapper, A(t), k, nn_method="exact", algorithm=a, n_jobs=1)
                rec.state((f, rest, case["first"], k, a))
                i1, d1 = rec.call("get_nns", w.get_nns, A(qs))
                if not contract(rec, "get_nns", i1, d1, qs, t, k):
                    return
                own = list(range(n))
                i2, d2 = rec.call("get_batch_nns", w.get_batch_nns, I(own))
                if not contract(rec, "get_batch_nns", i2, d2, t, t, k, own=own):
                    return
                # queries that are the training points themselves are queries like any other
                for qt in ((w.train if hasattr(w, "train") else A(t)), A(t[::-1].copy())):
                    i4, d4 = rec.call("get_nns", w.get_nns, qt)
                    if not contract(rec, "get_nns.training", i4, d4, N(qt).reshape(n, f), t, k):
                        return
                # earlier queries leave no trace
                i3, d3 = rec.call("get_nns", w.get_nns, A(qs))
                if not (eq(i1, i3) and eq(d1, d3)):
                    rec.fail("get_nns.history", f"a repeated query answers differently for {t.tolist()}"); return
        return
    if k_ == "batch":
        # every sequence of distinct batch indices (all orders), and repeats
        n = case["n"]
        t = np.array([[0.0, 0.0], [0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 0.0], [5.0, 2.0]])[:n]
        for k in range(1, n):
            for a in ALGS:
                w = NN_Wrapper(A(t), k, nn_method="exact", algorithm=a, n_jobs=1)
                seqs = [s for m in range(1, min(n, 4) + 1) for s in itertools.permutations(range(n), m)] + list(itertools.product(range(n), repeat=2))
                for s in seqs:
                    bi, bd = rec.call("get_batch_nns", w.get_batch_nns, I(list(s)))
                    rec.state((n, k, a, s))
                    if not contract(rec, "get_batch_nns", bi, bd, t[list(s)], t, k, own=list(s)):
                        return
        return
    if k_ == "metric":
        spec = METRICS[case["m"]]
        for n, f, k in [(9, 1, 3), (12, 2, 5), (20, 3, 4), (25, 2, 24)]:
            t, q = pts(n, f), pts(7, f, 0.31)
            for a in ([None] if "algorithm" in spec else ["auto", "brute", "ball_tree"]):
                kw = dict(spec) if a is None else dict(spec, algorithm=a)
                w = rec.call("NN_Wrapper", NN_Wrapper, A(t), k, nn_method="exact", n_jobs=1, **kw)
                rec.state((case["m"], n, f, k, a))
                i1, d1 = rec.call("get_nns", w.get_nns, A(q))
                contract(rec, "get_nns.metric", i1, d1, q, t, k, spec)
                i2, d2 = rec.call("get_batch_nns", w.get_batch_nns, I(range(n)))
                contract(rec, "get_batch_nns.metric", i2, d2, t, t, k, spec, own=list(range(n)))
        return
    if k_ == "ladder":
        n, f, k = case["n"], case["f"], case["nn"]
        t, q = pts(n, f), pts(40, f, 0.43)
        if n % 2:
            t[n // 2] = t[n // 3]; t[n - 1] = t[n // 3]     # coinciding points
        for a in ALGS:
            for lay in ("C", "F", "1d", "default-jobs"):
                if lay == "1d" and f != 1:
                    continue
                if lay == "default-jobs" and a != "auto":
                    continue
                tt, qq = A(t), A(q)
                if lay == "F":
                    tt, qq = np.asfortranarray(tt), np.asfortranarray(qq)
                if lay == "1d":
                    tt, qq = tt[:, 0], qq[:, 0]
                kw = {} if lay == "default-jobs" else dict(n_jobs=1, algorithm=a)
                w = rec.call("NN_Wrapper", NN_Wrapper, tt, k, nn_method=["exact", "Exact", "EXACT"][n % 3], **kw)
                i1, d1 = rec.call("get_nns", w.get_nns, qq)
                rec.state((n, f, k, a, lay))
                if not contract(rec, "get_nns.ladder", i1, d1, q, t, k):
                    return
                # one query at a time, in reverse, in two parts
                for sl in [slice(i, i + 1) for i in range(0, 40, 7)] + [slice(None, None, -1), slice(0, 13), slice(13, 40)]:
                    i2, d2 = rec.call("get_nns", w.get_nns, qq[sl])
                    if not (np.allclose(N(d2), N(d1)[sl], rtol=1e-9, atol=1e-9) and contract(rec, "get_nns.split", i2, d2, q[sl], t, k)):
                        rec.fail("get_nns.split", f"{sl}: the answer depends on the companions"); return
                # other queries of the same count with the same first and last rows, rows exchanged, or shifted as a whole
                q0 = np.array(N(qq), copy=True).reshape(len(q), -1)
                for how in ("inside", "swap", "shift"):
                    q2 = q0.copy()
                    if how == "inside":
                        q2[1:-1] = q2[1:-1] * 0.5 + 0.21
                    elif how == "swap":
                        q2[[1, 2]] = q2[[2, 1]]
                    else:
                        q2 += 0.125
                    i2, d2 = rec.call("get_nns", w.get_nns, A(q2[:, 0] if lay == "1d" else q2))
                    if not contract(rec, "get_nns.another", i2, d2, q2, t, k):
                        return
                if lay != "F" and (a == "auto" or n < 1000):
                    i2, d2 = rec.call("get_nns", w.get_nns, tt)
                    if not contract(rec, "get_nns.training", i2, d2, t, t, k):
                        return
                    qb = pts(n + 3, f, 0.61)
                    i2, d2 = rec.call("get_nns", w.get_nns, A(qb[:, 0] if lay == "1d" else qb))
                    if not contract(rec, "get_nns.many", i2, d2, qb, t, k):
                        return
                bi = [(i * 7 + 3) % n for i in range(min(n, 50))]
                i3, d3 = rec.call("get_batch_nns", w.get_batch_nns, I(bi))
                if not contract(rec, "get_batch_nns.ladder", i3, d3, t[bi], t, k, own=bi):
                    return
                for s in (bi[:1], bi[1:4], list(range(n)), bi[:1] + bi[1:-1][::-1] + bi[-1:], bi[:1] + [(x + 1) % n for x in bi[1:-1]] + bi[-1:]):
                    i4, d4 = rec.call("get_batch_nns", w.get_batch_nns, I(s))
                    if not contract(rec, "get_batch_nns.ladder", i4, d4, t[s], t, k, own=s):
                        return
                i1b, d1b = rec.call("get_nns", w.get_nns, qq)
                if not (eq(i1, i1b) and eq(d1, d1b)):
                    rec.fail("get_nns.history", "a repeated query answers differently"); return
        return
    if k_ == "hnsw":
        n = case["n"]
        for f in (1, 2, 3):
            for dup in (False, True):
                t = pts(n, f)
                if dup and n > 3:
                    t[1] = t[0]; t[n - 1] = t[0]
                t = t.astype(np.float32).astype(float)
                q = pts(9, f, 0.29).astype(np.float32).astype(float)
                for k in range(1, n):
                    for kw in ({}, dict(space="l2", ef_construction=100, M=16), dict(random_seed=7, M=20)):
                        w = rec.call("NN_Wrapper", NN_Wrapper, A(t), k, nn_method="hnsw", **kw)
                        rec.state((n, f, k, dup, json.dumps(kw)))
                        i1, d1 = rec.call("get_nns", w.get_nns, A(q))
                        if not contract(rec, "hnsw.get_nns", i1, d1, q, t, k, tol=1e-5):
                            return
                        i4, d4 = rec.call("get_nns", w.get_nns, A(t))
                        if not contract(rec, "hnsw.get_nns", i4, d4, t, t, k, tol=1e-5):
                            return
                        own = [(i * 3 + 1) % n for i in range(n)]
                        i2, d2 = rec.call("get_batch_nns", w.get_batch_nns, I(own))
                        if not contract(rec, "hnsw.get_batch_nns", i2, d2, t[own], t, k, own=own, tol=1e-5):
                            return
        return
    if k_ == "hnswbig":
        n, f, k = case["n"], case["f"], case["nn"]
        t, q = pts(n, f), pts(25, f, 0.29)
        w = rec.call("NN_Wrapper", NN_Wrapper, A(t), k, nn_method="hnsw", space="l2", ef_construction=100, M=16)
        rec.state((n, f, k))
        contract(rec, "hnsw.get_nns", *rec.call("get_nns", w.get_nns, A(q)), q, t, k, exact=False, tol=1e-4)
        own = [(i * 7 + 3) % n for i in range(60)]
        contract(rec, "hnsw.get_batch_nns", *rec.call("get_batch_nns", w.get_batch_nns, I(own)), t[own], t, k, own=own, exact=False, tol=1e-4)
        return
    for bad in ("ball", "", "exactly"):
        rec.state(bad); rec.trans(); rec.trace()
        try:
            NN_Wrapper(A(pts(5, 2)), 2, nn_method=bad)
            rec.fail("method.accepted", bad)
        except NotImplementedError:
            pass
