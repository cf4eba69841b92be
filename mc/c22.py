"""C22: shear kernels. Every displacement of a grid against Hermite-polynomial derivatives of the squared exponential, every batch and
neighbor count of a grid for layout, symmetry and block kriging, and the training objective."""
import itertools
import seams
import numpy as np
from numpy.polynomial import hermite_e as He
from ref import *

LS = [0.05, 0.3, 1.0, 2.7]
GRID = [-2.0, -1.0, -0.6, -0.1, 0.0, 1e-3, 0.3, 0.7, 1.0, 1.9]
SMALL = [1, 2, 3, 4, 5, 6]


def d1(n, x, l):
    """n-th derivative of exp(-x^2/2l)"""
    s = np.sqrt(l)
    return (-1) ** n * l ** (-n / 2) * He.hermeval(np.asarray(x) / s, [0] * n + [1]) * np.exp(-np.asarray(x) ** 2 / (2 * l))


def shear_block(dx, dy, l):
    """3x3 covariance of (convergence, shear 1, shear 2): half Laplacian, half difference, mixed derivative, on both arguments"""
    D = lambda a, b: d1(a, dx, l) * d1(b, dy, l)
    op = [{(2, 0): .5, (0, 2): .5}, {(2, 0): .5, (0, 2): -.5}, {(1, 1): 1.0}]
    out = np.zeros(np.shape(dx) + (3, 3))
    for i in range(3):
        for j in range(3):
            out[..., i, j] = sum(u * v * D(a + c, b + d) for (a, b), u in op[i].items() for (c, d), v in op[j].items())
    return out


def ref_full(diffs, l, rows=(0, 1, 2), cols=(0, 1, 2)):
    """diffs (..., n, m, 2) -> (..., len(rows), n, len(cols), m)"""
    B = shear_block(diffs[..., 0], diffs[..., 1], l)[..., list(rows), :][..., list(cols)]
    nd = B.ndim
    lead = list(range(nd - 4))
    return B.transpose(lead + [nd - 2, nd - 4, nd - 1, nd - 3])


def cases(tier, env):
    out = []
    for two in (False, True):
        if TORCH and two:
            continue
        for l in LS:
            out.append(dict(k="entries", l=l, two=two))
        for l in (1e-4, 0.003, 0.005, 0.009, 0.02, 0.1, 0.6, 9.0, 40.0, 400.0):
            out.append(dict(k="entries", l=l, two=two, rel=1))
        for b in SMALL:
            for nz in ("homo", "shear", "null"):
                if two and nz == "shear":
                    continue
                out.append(dict(k="block", two=two, b=[b], nn=SMALL + [9, 10], noise=nz))
        for b, k in [(9, 3), (10, 10), (12, 7), (16, 16), (33, 5), (32, 3), (64, 2), (101, 4), (30, 12), (5, 30), (2, 50), (257, 3), (3, 33), (513, 2), (1025, 1), (1, 65), (1, 100)]:
            out.append(dict(k="block", two=two, b=[b], nn=[k], noise="homo"))
            if not two:
                out.append(dict(k="block", two=two, b=[b], nn=[k], noise="shear"))
        for n, m in itertools.product((1, 2, 3, 4, 7), repeat=2):
            out.append(dict(k="flat", two=two, n=n, m=m))
        out.append(dict(k="kout", two=two)); out.append(dict(k="default", two=two))
        for b, k in [(1, 2), (2, 1), (2, 3), (3, 2), (4, 3), (3, 4), (5, 2), (7, 4)]:
            out.append(dict(k="objective", two=two, b=b, nn=k))
    out += with_layouts([c for c in out if c["k"] == "block" and c["b"][0] in (1, 3, 5)])
    return out


def tl(scale=1.0):
    return dict(rtol=1e-8, atol=1e-9 * scale) if FT == "64" else dict(rtol=1e-3, atol=3e-4 * scale)


def mk(two, l, lsb="fixed"):
    from MuyGPyS.gp.deformation import DifferenceIsotropy, F2
    from MuyGPyS.gp.kernels.experimental import ShearKernel, ShearKernel2in3out
    return (ShearKernel2in3out if two else ShearKernel)(deformation=DifferenceIsotropy(F2, P(l, lsb)))


def rows_of(two):
    return (1, 2) if two else (0, 1, 2)


def run(case, rec):
    two = case["two"]
    rows = rows_of(two)
    nr = len(rows)
    if case["k"] == "entries":
        l = case["l"]
        k = rec.call("construct", mk, two, l)
        GR = [g * np.sqrt(l) for g in GRID] if case.get("rel") else GRID
        for dx in GR:
            diffs = np.array([[(dx, dy) for dy in GR]])        # (1, m, 2)
            for form, lead in ((diffs, 0), (diffs[None], 1), (diffs[None].repeat(2, 0), 1)):
                for kw in (dict(), dict(length_scale=l * 1.7)):
                    le = kw.get("length_scale", l)
                    d = N(A(form)).astype(float)
                    if two:
                        got = rec.call("cross", k, A(form), force_Kcross=True, **kw)
                        want = ref_full(d, le, rows)
                    else:
                        got = rec.call("kernel", k, A(form), adjust=False, **kw)
                        want = ref_full(d, le)
                    rec.state((two, le, dx, form.shape)); rec.trace(len(GR) * 9)
                    if not close(got, want, **tl(np.abs(want).max())):
                        rec.fail("entries", f"length scale {le} dx {dx}: {diffmsg(got, want)}"); return
                    rec.outcome((le, dx))
        # the input covariance on each displacement, via a pair of points
        for dx, dy in itertools.product(GR, GR):
            p = np.array([[0.0, 0.0], [dx, dy]])
            d = p[:, None, :] - p[None, :, :]
            for f in (d, d[None]):
                got = rec.call("kernel", k, A(f))
                want = ref_full(N(A(f)).astype(float), l, rows, rows)
                rec.trace(); rec.state((two, l, dx, dy, f.ndim))
                if not close(got, want, **tl(np.abs(want).max())):
                    rec.fail("entries.pair", f"length scale {l} displacement {(dx, dy)}: {diffmsg(got, want)}"); return
        return
    if case["k"] == "block":
        for b, k in itertools.product(case["b"], case["nn"]):
            if not block(rec, two, b, k, case["noise"]):
                return
        return
    if case["k"] == "flat":
        n, m = case["n"], case["m"]
        x, z = pts(n, 2, 0.1, 2.0), pts(m, 2, 0.55, 2.0)
        for l in LS[1:]:
            kern = mk(two, l)
            pin = rec.call("pairwise", kern.deformation.pairwise_tensor, A(x), I(np.arange(n)))
            got = rec.call("kernel", kern, pin)
            want = ref_full(x[:, None] - x[None], l, rows, rows)
            rec.state((two, n, m, l)); rec.trace(2)
            if not close(got, want, **tl(np.abs(want).max())):
                rec.fail("flat.pairwise", f"{n} points: {diffmsg(got, want)}"); return
            cin = rec.call("crosswise", kern.deformation.crosswise_tensor, A(x), A(z), I(np.arange(n)), I(np.arange(m)))
            got = rec.call("kernel", kern, cin, **(dict(force_Kcross=True) if two else dict(adjust=False)))
            want = ref_full(x[:, None] - z[None], l, rows)
            if not close(got, want, **tl(np.abs(want).max())):
                rec.fail("flat.crosswise", f"{n} x {m} points: {diffmsg(got, want)}"); return
        return
    if case["k"] == "default":
        # kernels built without a deformation: length scale 1, nothing shared between two of them; other deformations are refused
        from MuyGPyS.gp.kernels.experimental import ShearKernel, ShearKernel2in3out
        from MuyGPyS.gp.deformation import Isotropy, Anisotropy, DifferenceIsotropy, F2, l2
        from MuyGPyS.gp.hyperparameter import VectorParam
        cls = ShearKernel2in3out if two else ShearKernel
        p = pts(4, 2, 0.1, 2.0)
        d = (p[:, None] - p[None])[None]

        def same(k, l, tag):
            rec.state((two, tag, l)); rec.trace()
            if not close(rec.call("kernel", k, A(d)), ref_full(N(A(d)).astype(float), l, rows, rows), **tl(3 / l ** 2)):
                rec.fail(tag, f"length scale {l}"); return False
            if not close(rec.call("Kout", k.Kout), shear_block(0.0, 0.0, l), **tl(3 / l ** 2)):
                rec.fail(tag + ".Kout", f"length scale {l}"); return False
            return True
        k1, k2 = rec.call("construct", cls), rec.call("construct", cls)
        if not (same(k1, 1.0, "default") and same(k2, 1.0, "default")):
            return
        for v in (0.7, 2.0, 0.4):
            k1.set_params(length_scale=P(v))
            same(k1, v, "default.after-set"); same(k2, 1.0, "default.other"); same(rec.call("construct", cls), 1.0, "default.fresh")
        for nm, df in (("Isotropy", lambda: Isotropy(F2, P(1.0))), ("Isotropy-l2", lambda: Isotropy(l2, P(1.0))), ("Anisotropy", lambda: Anisotropy(F2, VectorParam(P(1.0), P(2.0))))):
            rec.state((two, nm)); rec.trace()
            try:
                cls(deformation=df())
                rec.fail("default.reject", f"{nm} is accepted")
            except ValueError:
                pass
        return
    if case["k"] == "kout":
        from MuyGPyS.gp import MuyGPS
        for l in LS:
            k = mk(two, l, [0.01, 9.0])
            w = lambda v: shear_block(0.0, 0.0, v)
            for kw in (dict(), dict(length_scale=0.9), dict(), dict(length_scale=l * 2)):
                got = rec.call("Kout", k.Kout, **kw)
                le = kw.get("length_scale", l)
                rec.state((two, l, le)); rec.trace()
                if not close(got, w(le), **tl(np.abs(w(le)).max())):
                    rec.fail("kout", f"length scale {le}: {diffmsg(got, w(le))}"); return
            for v in (0.7, 0.2):
                k.set_params(length_scale=P(v, [0.01, 9.0]))
                if not close(rec.call("Kout", k.Kout), w(v), **tl(np.abs(w(v)).max())):
                    rec.fail("kout.after-set", f"length scale {v}"); return
                p = np.array([[0.0, 0.0], [0.4, -0.3]])
                d = (p[:, None] - p[None])[None]
                if not close(rec.call("kernel", k, A(d)), ref_full(d, v, rows, rows), **tl(1 / v ** 2)):
                    rec.fail("kernel.after-set", f"length scale {v}"); return
            names = rec.call("opt_params", k.get_opt_params)[0]
            if list(names) != ["length_scale"]:
                rec.fail("opt_params", str(names))
        return
    objective(case, rec, two, rows)


def data(b, k):
    n = max(2 * k, b + 4, 16)
    train = pts(n, 2, 0.05, 1.0 * np.sqrt(n))
    if FT == "32":
        train = train.astype(np.float32).astype(float)
    bi = (np.arange(b) * 3 + 1) % n
    nn = nbrs(train, train[bi], k, skip=bi)
    y = N(A(vals(n, 3))).astype(float)
    return train, bi, nn, y


def nug(noise, b, k, nr, v):
    a = np.full((b, nr, k), 0.0 if noise == "null" else v)
    if noise == "shear":
        a[:, 0] *= 2
    return a.reshape(b, nr * k)


def mk_n(noise, v, bounds="fixed"):
    from MuyGPyS.gp.noise import HomoscedasticNoise, NullNoise, ShearNoise33
    return {"homo": lambda: HomoscedasticNoise(v, bounds), "shear": lambda: ShearNoise33(v, bounds), "null": NullNoise}[noise]()


def kriging(Kin, Kc, t, add, kout, scale):
    """block kriging per query: Kin (b,r,k,r,k), Kc (b,r,k,3), t (b,r,k)"""
    b, r, k = t.shape
    mu = np.zeros((b, 3)); va = np.zeros((b, 3, 3))
    for i in range(b):
        M = Kin[i].reshape(r * k, r * k) + np.diag(add[i])
        C = Kc[i].reshape(r * k, 3)
        W = np.linalg.solve(M, C)
        mu[i] = W.T @ t[i].ravel()
        va[i] = scale * (kout - W.T @ C)
    return mu, va


def block(rec, two, b, k, noise):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.hyperparameter import FixedScale
    rows = rows_of(two); nr = len(rows)
    train, bi, nn, y = data(b, k)
    for l, v, sc in ((0.5, 1e-2, 1.0), (1.3, 0.2, 2.5)):
        kern = mk(two, l)
        m = rec.call("construct", MuyGPS, kernel=kern, noise=mk_n(noise, v), **({} if sc == 1.0 else dict(scale=FixedScale(val=sc))))
        cr, pr, bt, nt = rec.call("make_train_tensors", m.make_train_tensors, I(bi), I(nn), A(train), A(y))
        rec.state((two, b, k, noise, l)); rec.trace(4)
        where = f"batch {b} neighbors {k} length scale {l} noise {noise}"
        wi = ref_full(pair_diffs(train, nn), l, rows, rows)
        cd = cross_diffs(train[bi], train, nn)
        wc = ref_full(cd[:, :, None, :], l, rows)[..., 0]
        Kin = rec.call("kernel", m.kernel, pr)
        if not close(Kin, wi, **tl(np.abs(wi).max())):
            rec.fail("block.Kin", f"{where}: {diffmsg(Kin, wi)}"); return False
        fl = N(Kin).reshape(b, nr * k, nr * k)
        if not np.array_equal(fl, np.swapaxes(fl, 1, 2)):
            rec.fail("block.symmetry", where); return False
        if two:
            Kc = rec.call("kernel", m.kernel, cr[..., None, :], force_Kcross=True)[..., 0]
        else:
            Kc = rec.call("kernel", m.kernel, cr[..., None, :], adjust=False)[..., 0]
        if not close(Kc, wc, **tl(np.abs(wc).max())):
            rec.fail("block.Kcross", f"{where}: {diffmsg(Kc, wc)}"); return False
        try:
            plain = m.kernel(cr)
        except Exception as e:
            plain = e
        if isinstance(plain, Exception) or not close(plain, wc, **tl(np.abs(wc).max())):
            d = str(plain) if isinstance(plain, Exception) else diffmsg(plain, wc)
            if b == k and not isinstance(plain, Exception) and close(plain, ref_full(cd, l, rows, rows), **tl(np.abs(wc).max())):
                rec.fail("crosswise-taken-for-pairwise:batch-equals-neighbors", f"{where}: {d}")
            else:
                rec.fail("block.Kcross-plain", f"{where}: {d}"); return False
        t = y[nn].swapaxes(-2, -1)[:, list(rows), :]
        add = nug(noise, b, k, nr, v)
        cond = max(np.linalg.cond(wi[i].reshape(nr * k, nr * k) + np.diag(add[i])) for i in range(b))
        if cond > (1e8 if FT == "64" else 300):
            rec.note("ill-conditioned skipped"); continue
        mu, va = kriging(wi, wc, t, add, shear_block(0.0, 0.0, l), sc)
        tt = dict(rtol=1e-6, atol=1e-6 * max(1, np.abs(va).max())) if FT == "64" else dict(rtol=2e-2, atol=2e-2 * max(1, np.abs(va).max()))
        gm = rec.call("posterior_mean", m.posterior_mean, Kin, Kc, A(t))
        gv = rec.call("posterior_variance", m.posterior_variance, Kin, Kc)
        if not close(gm, mu, **tt):
            rec.fail("block.mean", f"{where}: {diffmsg(gm, mu)}"); return False
        if not close(gv, va, **tt):
            rec.fail("block.variance", f"{where}: {diffmsg(gv, va)}"); return False
        rec.outcome((b, k, l, round(float(mu[0, 0]), 8)))
        for rs in [[i] for i in range(min(b, 4))] + [list(reversed(range(b)))]:
            g1 = rec.call("posterior_mean", m.posterior_mean, Kin[rs], Kc[rs], A(t[rs]))
            g2 = rec.call("posterior_variance", m.posterior_variance, Kin[rs], Kc[rs])
            if not close(g1, mu[rs], **tt) or not close(g2, va[rs], **tt):
                rec.fail("block.rows", f"{where} rows {rs}: {diffmsg(g1, mu[rs])}; {diffmsg(g2, va[rs])}"); return False
    return True


def objective(case, rec, two, rows):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
    import MuyGPyS.optimize.loss as L
    b, k, nr = case["b"], case["nn"], len(rows)
    train, bi, nn, y = data(b, k)
    noises = ["homo"] if two else ["homo", "shear"]
    # the 2-in-3-out model is trained on its shear outputs (mask); the full model on every non-empty subset of outputs
    masks = [[1, 2], [1], [2], [2, 1]] if two else [None, [0], [1, 2], [0, 2], [2, 0], [0, 1, 2], [2, 1, 0], [1]]
    for noise, mask, (loss, fn) in itertools.product(noises, masks, (("mse", L.mse_fn), ("lool", L.lool_fn))):
        for maker in (L_BFGS_B_optimize, Bayes_optimize):
            m = rec.call("construct", MuyGPS, kernel=mk(two, 0.5, [0.05, 3.0]), noise=mk_n(noise, 0.05, (1e-3, 1.0)))
            cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
            t = y[nn].swapaxes(-2, -1)[:, list(rows), :]
            tg = y[bi] if mask is None else y[bi][:, mask]
            kw = {} if mask is None else dict(target_mask=mask)
            obj = rec.call("make_obj_fn", maker.make_obj_fn, m, A(tg), A(t), cr, pr, loss_fn=fn, **kw)
            for p in ({}, dict(length_scale=0.9), dict(noise=0.3), dict(length_scale=0.3, noise=0.01), dict(noise=0.01, length_scale=0.3), {}):
                l, v = p.get("length_scale", 0.5), p.get("noise", 0.05)
                wi = ref_full(pair_diffs(train, nn), l, rows, rows)
                wc = ref_full(cross_diffs(train[bi], train, nn)[:, :, None, :], l, rows)[..., 0]
                mu, va = kriging(wi, wc, t, nug(noise, b, k, nr, v), shear_block(0.0, 0.0, l), 1.0)
                if mask is not None:
                    mu, va = mu[:, mask], va[:, mask][:, :, mask]
                if loss == "mse":
                    w = -ref_mse(mu, tg)
                else:
                    s = 0.0
                    for i in range(b):
                        r = mu[i] - tg[i]
                        s += r @ np.linalg.solve(va[i], r) + np.log(np.linalg.det(va[i]))
                    w = -s
                g = float(np.ravel(N(rec.call("objective", obj, **p)))[0])
                rec.state((two, b, k, noise, str(mask), loss, str(p))); rec.trace()
                if abs(g - w) > (1e-5 if FT == "64" else 5e-2) * max(1, abs(w)):
                    rec.fail(f"objective.{loss}", f"{g} instead of {w} at {p} mask {mask} noise {noise} batch {b} neighbors {k}"); return
                rec.outcome(round(w, 8))
