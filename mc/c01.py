"""C01: neighborhood tensors. Exhaustive over all index arrays of a small space, then over a size ladder x layouts."""
import itertools
import numpy as np
from ref import *

INTS = ["int", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "bool"]
LAY = ["C", "F", "stride", "rev", "f32", "ro"] + INTS
BL = [1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025]
KL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 30, 31, 32, 33, 50, 63, 64, 65, 100]
FL = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 20, 40]     # 0: one-dimensional feature vector
RL = [0, 1, 2, 3, 4, 5, 8, 10, 16, 17]                          # 0: one-dimensional targets


def layout(x, lay):
    """(array given to the library, float64 value of it)"""
    if TORCH and lay in ("rev", "ro"):
        lay = "stride"
    if lay == "C":
        a = np.ascontiguousarray(x)
    elif lay == "F":
        a = np.asfortranarray(x)
    elif lay == "stride":
        big = np.full((2 * x.shape[0],) + x.shape[1:], -7.0)
        big[::2] = x
        a = big[::2]
    elif lay == "rev":
        a = np.ascontiguousarray(x[::-1])[::-1]
    elif lay == "f32":
        a = x.astype(np.float32)
    elif lay == "int":
        a = np.round(x * 10).astype(np.int64)
    elif lay in INTS:
        a = np.round(x * 100).astype(np.int64)
        a = (a % 2 if lay == "bool" else a % 251 if lay[0] == "u" else a % 251 - 125).astype(lay)
    elif lay == "ro":
        a = np.ascontiguousarray(x); a.flags.writeable = False
    if TORCH:
        import torch
        t = torch.from_numpy(a if lay == "stride" else np.array(a, copy=True, order="K", dtype="int64" if lay in ("uint16", "uint32", "uint64") else None))
        return t, t.numpy().astype(float)
    return a, a.astype(float)


def cases(tier, env):
    th = tier == "thorough"
    out = []
    for n, f, b, k in ([(2, 0, 1, 1), (2, 1, 1, 2), (2, 2, 2, 1), (3, 0, 1, 2), (3, 1, 2, 1), (3, 2, 1, 2), (2, 2, 2, 2), (3, 2, 2, 2), (3, 1, 2, 2), (3, 0, 2, 2), (2, 3, 1, 3)]
                       + ([(3, 2, 2, 3), (4, 2, 2, 2), (3, 1, 3, 2)] if th else [])):
        out.append(dict(k="all", n=n, f=f, b=b, nn=k))
    for f in FL:
        for lay in LAY:
            out.append(dict(k="size", b=[1, 2, 3, 5], nn=[1, 2, 3, 5], f=[f], r=[0, 1, 2, 3], lay=lay))
    for r in RL:
        out.append(dict(k="size", b=[1, 3], nn=[1, 2, 3], f=[0, 1, 2], r=[r], lay="C"))
        out.append(dict(k="size", b=[r or 1], nn=[r or 1], f=[r], r=[r], lay="C"))
    for b in BL:
        out.append(dict(k="size", b=[b], nn=[1, 2, 5], f=[0, 1, 2], r=[0, 1, 2], lay="C"))
    for k in KL:
        out.append(dict(k="size", b=[1, 2, 7], nn=[k], f=[0, 1, 3], r=[0, 1, 2], lay="C"))
    for b in [2047, 2048, 2049, 4095, 4096, 4097, 5001, 8193, 10000, 10001, 16385, 20001]:      # large batches
        out.append(dict(k="size", b=[b], nn=[2], f=[b % 2 + 1], r=[b % 3], lay="C"))
    for n in [129, 257, 513, 1025, 2049, 4097, 8193, 10001, 32769, 65537, 70001]:               # large training sets (index width)
        out.append(dict(k="size", n=n, b=[3], nn=[3], f=[2], r=[n % 3], lay="C"))
    for k in [127, 128, 129, 200, 255, 256, 257]:
        out.append(dict(k="size", b=[2], nn=[k], f=[2], r=[1], lay="C"))
    for f in [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 784, 1025]:
        out.append(dict(k="size", b=[2], nn=[3], f=[f], r=[2], lay="C"))
    for r in [31, 32, 33, 64, 65, 100, 129, 257]:
        out.append(dict(k="size", b=[2], nn=[3], f=[2], r=[r], lay="C"))
    if th:
        for f in FL:
            for b in BL[:20]:
                out.append(dict(k="size", b=[b], nn=[1, 2, 3, 10, 30], f=[f], r=[0, 1, 2, 5], lay=LAY[b % len(LAY)]))
    out += with_layouts([c for c in out if (c["k"] == "all" and (c["n"], c["b"] * c["nn"]) <= (3, 2)) or
                         (c["k"] == "size" and c["lay"] == "C" and (len(c["r"]) == 1 or c["nn"] == [1, 2, 5] and c["b"][0] < 70))])
    return out


def models(f, r):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, DifferenceIsotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam
    from MuyGPyS.gp.kernels import Matern, RBF
    v = VectorParam(*[ScalarParam(1.0 + 0.1 * i) for i in range(max(f, 1))])
    return [("iso_l2", MuyGPS(Matern(smoothness=ScalarParam(1.5), deformation=Isotropy(l2, ScalarParam(0.7)))), "l2"),
            ("iso_F2", MuyGPS(RBF(deformation=Isotropy(F2, ScalarParam(0.7)))), "F2"),
            ("aniso_l2", MuyGPS(Matern(smoothness=ScalarParam(1.5), deformation=Anisotropy(l2, v))), "d"),
            ("aniso_F2", MuyGPS(RBF(deformation=Anisotropy(F2, v))), "d"),
            ("diso_F2", MuyGPS(RBF(deformation=DifferenceIsotropy(F2, ScalarParam(0.7)))), "d")]


def red(d, how):
    if how == "d":
        return d
    s = (d ** 2).sum(-1)
    return s if how == "F2" else np.sqrt(s)


def tol(lay):
    return dict(rtol=2e-5, atol=2e-5) if (lay == "f32" or FT == "32") else dict(rtol=1e-12, atol=1e-12)


def check(rec, tag, got, want, lay, exact=False):
    rec.trace()
    g, w = N(got), np.asarray(want)
    if g.shape != w.shape or not np.allclose(g.astype(float), w, **tol(lay)):
        rec.fail(tag, diffmsg(g, w))
        return False
    rec.outcome((tag, g.shape))
    return True


def one(rec, x, tx, y, bi, nn, ti, tnn, lay):
    """x train features, tx test features, y targets; bi, nn index train; ti, tnn: test queries"""
    from MuyGPyS.gp.tensors import fast_nn_update, make_fast_predict_tensors, batch_features_tensor
    xa, xv = layout(x, lay)
    ta, tv = layout(tx, lay)
    ya, yv = layout(y, lay)
    x2 = xv.reshape(len(xv), -1); t2 = tv.reshape(len(tv), -1)
    f = 0 if x.ndim == 1 else x.shape[1]
    cr = x2[bi][:, None, :] - x2[nn]
    tcr = t2[ti][:, None, :] - x2[tnn]
    pr = x2[nn][:, :, None, :] - x2[nn][:, None, :, :]
    tpr = x2[tnn][:, :, None, :] - x2[tnn][:, None, :, :]
    bi_, nn_, ti_, tnn_ = I(bi), I(nn), I(ti), I(tnn)
    for name, m, how in models(f, 1):
        d = m.kernel.deformation
        rec.state((name, lay, x.shape, y.shape, bi.tobytes(), nn.tobytes()))
        c = rec.call(name + ".crosswise", d.crosswise_tensor, ta, xa, ti_, tnn_)
        p = rec.call(name + ".pairwise", d.pairwise_tensor, xa, nn_)
        check(rec, name + ".crosswise", c, red(tcr, how), lay)
        check(rec, name + ".pairwise", p, red(pr, how), lay)
        g = rec.call(name + ".make_train_tensors", m.make_train_tensors, bi_, nn_, xa, ya)
        for t, a, w in zip(("crosswise", "pairwise", "batch_targets", "nn_targets"), g, (red(cr, how), red(pr, how), yv[bi], yv[nn])):
            check(rec, f"{name}.make_train_tensors.{t}", a, w, lay)
        for tf, ix, nx, wc, wp in ((ta, ti_, tnn_, tcr, tpr), (None, bi_, nn_, cr, pr)):
            g = rec.call(name + ".make_predict_tensors", m.make_predict_tensors, ix, nx, tf, xa, ya)
            for t, a, w in zip(("crosswise", "pairwise", "nn_targets"), g, (red(wc, how), red(wp, how), yv[N(nx)])):
                check(rec, f"{name}.make_predict_tensors.{t}", a, w, lay)
    check(rec, "batch_features_tensor", rec.call("batch_features_tensor", batch_features_tensor, xa, bi_), xv[bi], lay)
    # fast tensors: every training point heads its own neighborhood
    k = nn.shape[1]
    full = np.array([[(i + 1 + j) % len(x2) for j in range(k)] for i in range(len(x2))])
    want = np.concatenate([np.arange(len(x2))[:, None], full[:, :-1]], axis=1)
    g = rec.call("fast_nn_update", fast_nn_update, I(full))
    rec.trace()
    if not eq(g, want):
        rec.fail("fast_nn_update", diffmsg(g, want))
    p, t = rec.call("make_fast_predict_tensors", make_fast_predict_tensors, I(full), xa, ya)
    check(rec, "make_fast_predict_tensors.pairwise", p, x2[want][:, :, None, :] - x2[want][:, None, :, :], lay)
    check(rec, "make_fast_predict_tensors.targets", t, yv[want], lay)


def run(case, rec):
    if case["k"] == "all":
        from MuyGPyS.gp.deformation import l2, F2
        n, f, b, k = case["n"], case["f"], case["b"], case["nn"]
        x = pts(n, max(f, 1)); tx = pts(2, max(f, 1), 0.31)
        if f == 0:
            x, tx = x[:, 0], tx[:, 0]
        x2, t2 = x.reshape(n, -1), tx.reshape(2, -1)
        y = vals(n, 2)
        xa, ta, ya = A(x), A(tx), A(y)
        ms = models(f, 1)
        for nnf in itertools.product(range(n), repeat=b * k):
            nn = np.array(nnf).reshape(b, k)
            pr = x2[nn][:, :, None, :] - x2[nn][:, None, :, :]
            for name, m, how in ms:
                p = rec.call(name + ".pairwise", m.kernel.deformation.pairwise_tensor, xa, I(nn))
                if not check(rec, name + ".pairwise", p, red(pr, how), "C"):
                    return
            for bi in itertools.product(range(n), repeat=b):
                bi = np.array(bi)
                name, m, how = ms[(sum(nnf) + sum(bi)) % len(ms)]
                rec.state((n, f, b, k, nnf, tuple(bi)))
                g = rec.call(name + ".make_train_tensors", m.make_train_tensors, I(bi), I(nn), xa, ya)
                cr = x2[bi][:, None, :] - x2[nn]
                for t, a, w in zip(("crosswise", "pairwise", "batch_targets", "nn_targets"), g, (red(cr, how), red(pr, how), y[bi], y[nn])):
                    if not check(rec, f"{name}.make_train_tensors.{t}", a, w, "C"):
                        return
                ti = bi % 2
                g = rec.call(name + ".make_predict_tensors", m.make_predict_tensors, I(ti), I(nn), ta, xa, ya)
                for t, a, w in zip(("crosswise", "pairwise", "nn_targets"), g, (red(t2[ti][:, None, :] - x2[nn], how), red(pr, how), y[nn])):
                    if not check(rec, f"{name}.make_predict_tensors.{t}", a, w, "C"):
                        return
        return
    for b, k, f, r in itertools.product(case["b"], case["nn"], case["f"], case["r"]):
        n = case.get("n") or max(k + 2, min(b, 40), 5)
        x = pts(n, max(f, 1)); tx = pts(max(b // 2, 2), max(f, 1), 0.31)
        if f == 0:
            x, tx = x[:, 0], tx[:, 0]
        y = vals(n, max(r, 1))
        if r == 0:
            y = y[:, 0]
        i = np.arange(b)
        bi = (i * 7 + 3) % n                                   # unsorted; repeats once b > n
        nn = (bi[:, None] + 1 + (np.arange(k)[None, :] * 3 + i[:, None]) ) % n   # may repeat, may include self
        ti = (i * 5 + 1) % len(tx)
        tnn = (i[:, None] * 2 + np.arange(k)[None, ::-1]) % n
        if "n" in case:                                        # reach the high indices too
            tx = pts(n, max(f, 1), 0.31)
            bi, nn, ti, tnn = n - 1 - bi, (n - 1 - nn * np.array([[1], [n // 7], [n // 3]])) % n, n - 1 - ti, (n - 1 - tnn) % n
        one(rec, x, tx, y, bi, nn, ti, tnn, case["lay"])
