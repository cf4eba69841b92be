"""C11: batch samplers for all small label sets, batch counts and every answer of the random source (systematic branching over draws)."""
import itertools
import seams
import numpy as np
from ref import *
from c10 import contract

VALS = {2: [(0, 1), (-1, 1), (3, 7), (1, 0), (-0.1, 0.9), (0.25, 0.75), (False, True), ("a", "b")], 3: [(0, 1, 2), (2, 5, -4), (0.2, 0.5, 1.4)], 1: [(0,), (4,), (0.5,)], 4: [(0, 1, 2, 3)]}
if TORCH:
    VALS[2] = VALS[2][:-1]


def L(labels):
    """labels as the caller has them: integers, floating point, truth values or names"""
    a = np.asarray(labels)
    if a.dtype.kind == "i":
        return I(a)
    if a.dtype.kind == "f":
        return A(a)
    if TORCH:
        import torch
        return torch.tensor(a)
    return a


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for n in (2, 3, 4, 5, 6):
        for c in (1, 2, 3, 4):
            if c > n or (n == 6 and c == 4):
                continue
            for dup in (False, True):
                for k in range(1, n):
                    if (n == 6 and (dup or k not in (1, 2, 3)) and not th):
                        continue
                    out.append(dict(k="balanced", n=n, c=c, nn=k, dup=dup))
    for n in (1, 2, 3, 4, 5, 6):
        out.append(dict(k="sample", n=n))
    for n, c, k in [(30, 2, 5), (31, 3, 4), (60, 4, 6), (64, 2, 3), (100, 10, 7), (129, 5, 8), (200, 2, 10), (257, 7, 5), (513, 2, 4), (1025, 3, 3), (1500, 4, 2)]:
        out.append(dict(k="ladder", n=n, c=c, nn=k))
    out += with_layouts([c for c in out if (c["k"] == "balanced" and c["n"] < 5) or (c["k"] == "sample" and c["n"] < 5) or (c["k"] == "ladder" and c["n"] < 70)])
    return out


def every_draw(fn, limit=400):
    """run fn once per sequence of answers of the random source; a draw of m out of n is any m-subset (in ascending and, for
    the last alternative, descending order)"""
    script = []
    runs = 0
    while True:
        sizes = []

        def pick(n, m, i):
            alts = list(itertools.combinations(range(n), m))
            alts = alts + ([tuple(reversed(alts[-1]))] if m > 1 else [])
            while len(sizes) <= i:
                sizes.append(len(alts))
            if i >= len(script):
                script.append(0)
            return list(alts[script[i]])
        with seams.Draws(pick) as d:
            fn(list(script))
        runs += 1
        del script[len(sizes):]
        while script and script[-1] + 1 >= sizes[len(script) - 1]:
            script.pop()
        if not script:
            return True
        script[-1] += 1
        if runs >= limit:
            return False


def run(case, rec):
    from MuyGPyS.neighbors import NN_Wrapper
    import MuyGPyS.optimize.batch as B
    k_ = case["k"]
    if k_ == "sample":
        n = case["n"]
        t = np.array([[0.0], [1.0], [1.0], [2.5], [4.0], [7.0]])[:n]
        for k in range(1, n):
            w = NN_Wrapper(A(t), k, nn_method="exact", algorithm="brute", n_jobs=1)
            for bc in range(1, n + 3):
                def go(script):
                    bi, bn = rec.call("sample_batch", B.sample_batch, w, bc, n)
                    rec.state((n, k, bc, tuple(N(bi).tolist())))
                    valid(rec, "sample_batch", N(bi), N(bn), t, k, n, size=min(bc, n))
                    if bc >= n and sorted(N(bi).tolist()) != list(range(n)):
                        rec.fail("sample_batch.all", f"{N(bi).tolist()} of {n} points for batch count {bc}")
                if not every_draw(go, 5000):
                    rec.cap("draw sequences of sample_batch beyond 5000")
        return
    if k_ == "balanced":
        n, c, k = case["n"], case["c"], case["nn"]
        t = np.array([[0.0], [1.0], [1.0], [1.0], [2.2], [7.0]])[:n] if case["dup"] else np.array([[0.0], [1.0], [2.3], [2.9], [5.0], [4.1]])[:n]
        w = NN_Wrapper(A(t), k, nn_method="exact", algorithm="brute", n_jobs=1)
        own = N(w.get_batch_nns(I(range(n)))[0])
        for lab in itertools.product(range(c), repeat=n):
            if len(set(lab)) != c:
                continue
            vv = VALS[c][sum(lab) % len(VALS[c])]
            labels = np.array([vv[x] for x in lab])
            mixed = [i for i in range(n) if len({labels[j] for j in own[i]}) > 1]
            # the full filtered batch
            bi, bn = rec.call("full_filtered_batch", B.full_filtered_batch, w, L(labels))
            rec.state(("full", n, k, lab))
            bi, bn = N(bi), N(bn)
            if sorted(bi.tolist()) != mixed:
                rec.fail("full_filtered_batch", f"{bi.tolist()} for labels {labels.tolist()} neighbors {own.tolist()}, mixed neighborhoods are {mixed}"); return
            valid(rec, "full_filtered_batch", bi, bn, t, k, n)
            for bc in range(1, n + 2):
                each = bc // c

                def go(script):
                    for name in ("sample_balanced_batch", "get_balanced_batch"):
                        if name == "get_balanced_batch" and script and sum(script) % 3:
                            continue
                        bi, bn = rec.call(name, getattr(B, name), w, L(labels), bc)
                        bi, bn = N(bi), N(bn)
                        rec.state((name, n, k, lab, bc, tuple(script)))
                        if not valid(rec, name, bi, bn, t, k, n):
                            return
                        if any(i not in mixed for i in bi.tolist()):
                            rec.fail(name + ".mixed", f"{bi.tolist()} includes points whose neighborhood has one label; labels {labels.tolist()} neighbors {own.tolist()}"); return
                        if name == "get_balanced_batch" and n <= bc:
                            if sorted(bi.tolist()) != mixed:
                                rec.fail(name + ".full", f"{bi.tolist()} instead of all of {mixed}"); return
                            continue
                        for v in vv:
                            have = sum(1 for i in bi.tolist() if labels[i] == v)
                            offers = sum(1 for i in mixed if labels[i] == v)
                            if have != min(offers, each):
                                rec.fail(name + ".balance", f"{have} points of class {v}, {offers} available, batch count {bc}, {c} classes"); return
                if not every_draw(go, 300):
                    rec.note("label set with more than 300 draw sequences: first 300 in order")
        return
    n, c, k = case["n"], case["c"], case["nn"]
    t = pts(n, 2)
    lab = (np.arange(n) * 7 // 3) % c
    lab[: n // 4] = 0          # a region of one class
    lab = np.unique(lab, return_inverse=True)[1]
    c = int(lab.max()) + 1
    w = NN_Wrapper(A(t), k, nn_method="exact", n_jobs=1)
    own = N(w.get_batch_nns(I(range(n)))[0])
    mixed = [i for i in range(n) if len({int(lab[j]) for j in own[i]}) > 1]
    for bc in (1, c - 1, c, c + 1, n // 3, n // 2, n - 1, n, n + 1):
        for s in range(4):
            with seams.Draws(lambda N_, m, i: [((s + 1) * 3 * j + s) % N_ if np.gcd((s + 1) * 3, N_) == 1 else j for j in range(m)]):
                for name in ("sample_balanced_batch", "get_balanced_batch"):
                    bi, bn = rec.call(name, getattr(B, name), w, I(lab), bc)
                    bi, bn = N(bi), N(bn)
                    rec.state((name, n, bc, s))
                    valid(rec, name, bi, bn, t, k, n)
                    full = name == "get_balanced_batch" and n <= bc
                    want = [sum(1 for i in mixed if lab[i] == v) for v in range(c)]
                    want = want if full else [min(x, bc // c) for x in want]
                    have = [sum(1 for i in bi if lab[i] == v) for v in range(c)]
                    if have != want or any(i not in mixed for i in bi.tolist()):
                        rec.fail(name + ".ladder", f"class counts {have} instead of {want} at {n} points, batch count {bc}")
                bi, bn = rec.call("sample_batch", B.sample_batch, w, bc, n)
                valid(rec, "sample_batch", N(bi), N(bn), t, k, n, size=min(bc, n))


def valid(rec, name, bi, bn, t, k, n, size=None):
    rec.trace()
    rec.outcome((name, tuple(bi.tolist())) if n < 20 else name)
    if bi.ndim != 1 or bn.shape != (len(bi), k):
        rec.fail(name + ".shape", f"{bi.shape} and {bn.shape} for {k} neighbors"); return False
    if str(bi.dtype) != "int64":
        rec.fail(name + ".dtype", f"indices of type {bi.dtype}"); return False
    if len(set(bi.tolist())) != len(bi):
        rec.fail(name + ".distinct", f"{bi.tolist()}"); return False
    if len(bi) and (bi.min() < 0 or bi.max() >= n):
        rec.fail(name + ".range", f"{bi.tolist()} of {n}"); return False
    if size is not None and len(bi) != size:
        rec.fail(name + ".size", f"{len(bi)} points instead of {size}"); return False
    if len(bi) == 0:
        return True
    D = ((t[bi][:, None, :] - t[bn]) ** 2).sum(-1)
    full = ((t[bi][:, None, :] - t[None, :, :]) ** 2).sum(-1)
    for a in range(len(bi)):
        if bi[a] in bn[a] or len(set(bn[a].tolist())) != k or not np.allclose(D[a], np.sort(np.delete(full[a], bi[a]))[:k], atol=1e-12):
            rec.fail(name + ".own-neighbors", f"point {bi[a]} is paired with {bn[a].tolist()}"); return False
    return True
