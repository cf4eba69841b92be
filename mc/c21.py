"""C21: hierarchical (nonstationary) length scales. All knot counts, dimensions, batch sizes, fixed/free patterns and subsets/orders of
overridden knots, against one kriging solve per query."""
import copy, itertools
import seams
import numpy as np
from ref import *
import c07

HI = [dict(kernel="rbf", ls=0.9), dict(kernel="matern", nu=0.5, ls=1.2), dict(kernel="matern", nu=1.5, ls=0.7), dict(kernel="rbf", ls=1.7),
      dict(kernel="matern", nu=2.5, ls=0.8), dict(kernel="rbf", ls="aniso", **{"def": "aniso"}), dict(kernel="rbf", ls=0.6, **{"def": "diso"}), dict(kernel="matern", nu=float("inf"), ls=0.6)]
LO = [dict(kernel="rbf"), dict(kernel="matern", nu=0.5), dict(kernel="matern", nu=1.5), dict(kernel="matern", nu=2.5), dict(kernel="matern", nu=float("inf"))]
NZ = [0.0, 1e-5, 0.3, None]


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for h in range(len(HI)):
        for f in (1, 2, 3):
            for nk in (1, 2, 3, 4, 5, 6):
                out.append(dict(k="param", h=h, f=f, nk=nk, b=[1, 2, 3, 4, 5, 6, 9] if th else sorted({1, 2, nk, 5}), ov=60 if th else 9))
        for nk in (9, 10, 11, 12, 13, 20, 25):
            out.append(dict(k="param", h=h, f=4, nk=nk, b=[1, 2, nk, 33, 129] + (([1025] + [4097] * (nk == 11) + [10001] * (nk == 9 and h == 0)) if h < 2 else []), ov=60 if th else 5))
        out.append(dict(k="flat", h=h))
    out.append(dict(k="knots"))
    for h in (0, 1, 5) if th else (0, 5):
        for l in range(len(LO)):
            for nk in (1, 2, 3, 4, 5):
                out.append(dict(k="kernel", h=h, l=l, nk=nk, b=[1, 2, 3, 4, 5], nn=[1, 2, 3, 4, 5] if th else sorted({1, 3, nk})))
            out.append(dict(k="kernel", h=h, l=l, nk=7, b=[7, 10, 33, 65], nn=[7, 10, 30]))
            out.append(dict(k="kernel", h=h, l=l, nk=11, b=[2, 11, 101], nn=[3, 11]))
    for h in (0, 2):
        for l in range(len(LO)):
            for nk in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
                if h == 2 and l > 1 and not th:
                    continue
                for pat in itertools.product((0, 1), repeat=nk):
                    out.append(dict(k="objective", h=h, l=l, free=list(pat)))
    out += with_layouts([c for c in out if (c["k"] == "param" and c["f"] == 2 and c["nk"] in (2, 5)) or (c["k"] == "kernel" and c["nk"] == 3)])
    return out


def knots_of(nk, f, s):
    return pts(nk, f, 0.31 + s, 2.5)


def kv(nk):
    return [round(0.6 + 0.9 * ((i * 0.618 + 0.2) % 1.0), 6) for i in range(nk)]


def hi_spec(h, f):
    s = dict(HI[h])
    if s["ls"] == "aniso":
        s["ls"] = [0.8 + 0.4 * i for i in range(f)]
    return s


def ref_ls(hs, kf, v, noise, q):
    """knot values kriged at the queries' own features, one at a time"""
    v = np.asarray(v, float)
    K = ref_k(hs, kf[:, None, :] - kf[None, :, :]) + noise * np.eye(len(kf))
    return np.array([ref_k(hs, (x[None, :] - kf)) @ np.linalg.solve(K, v) for x in q])


def mk_hier(h, f, nk, noise, free, flat=False, bound=(0.05, 6.0), parts=None):
    """`parts`, if given, receives the higher-level kernel and noise objects"""
    from MuyGPyS.gp.hyperparameter import VectorParam
    from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam
    from MuyGPyS.gp.noise import HomoscedasticNoise
    kf = knots_of(nk, f, 0.0)
    if FT == "32":
        kf = kf.astype(np.float32).astype(float)
    vals_ = kv(nk)
    vp = VectorParam(*[P(v, bound if fr else "fixed") for v, fr in zip(vals_, free)])
    kw = {} if noise is None else dict(noise=HomoscedasticNoise(noise))
    hk = mk_kernel(hi_spec(h, f))
    hp = HierarchicalParam(A(kf[:, 0] if flat else kf), vp, hk, **kw)
    if parts is not None:
        parts.extend([hk, kw.get("noise")])
    return hp, kf, vals_


def cond(hs, kf, noise):
    return np.linalg.cond(ref_k(hs, kf[:, None, :] - kf[None, :, :]) + noise * np.eye(len(kf)))


def tl():
    return dict(rtol=1e-6, atol=1e-7) if FT == "64" else dict(rtol=1e-3, atol=1e-3)


def overrides(nk, limit=60):
    """subsets of the knots, in every order while there are few"""
    n = 0
    for r in [0, 1, nk] + list(range(2, nk)):
        if r == 1 and nk == 1 and n > 1:
            continue
        for sub in (itertools.permutations(range(nk), r) if nk <= 3 else itertools.combinations(range(nk), r)):
            if nk > 4 and r not in (0, 1, nk):
                continue
            yield sub
            n += 1
            if n >= limit:
                return


def run(case, rec):
    if case["k"] == "knots":
        # as many knot values as knot features, else a ValueError
        from MuyGPyS.gp.hyperparameter import VectorParam
        from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam
        for nf, nv in itertools.product(range(1, 8), repeat=2):
            for f in (1, 2):
                rec.state((nf, nv, f)); rec.trace()
                try:
                    HierarchicalParam(A(knots_of(nf, f, 0.0)), VectorParam(*[P(v) for v in kv(nv)]), mk_kernel(hi_spec(0, f)))
                    if nf != nv:
                        rec.fail("knots.reject", f"{nv} values for {nf} knots are accepted")
                except ValueError:
                    if nf == nv:
                        rec.fail("knots.accept", f"{nv} values for {nf} knots are refused")
        return
    from MuyGPyS.gp.hyperparameter.experimental import NamedHierarchicalParam
    if case["k"] in ("param", "flat"):
        flat = case["k"] == "flat"
        h = case["h"]
        if flat and HI[h].get("def") == "aniso":
            return
        for nk, f, b in ([(case["nk"], case["f"], b) for b in case["b"]] if not flat else itertools.product((1, 2, 3, 5), (1,), (1, 2, 3, 5, 8))):
            hs = hi_spec(h, f)
            q = pts(b, f, 0.137, 2.5)
            if FT == "32":
                q = q.astype(np.float32).astype(float)
            for noise in NZ:
                nz = 1e-5 if noise is None else noise
                for free in ([False] * nk, [True] * nk, [i % 2 == 0 for i in range(nk)]):
                    parts = []
                    hp, kf, v = rec.call("construct", mk_hier, h, f, nk, noise, free, flat, parts=parts)
                    if cond(hs, kf, nz) > (1e8 if FT == "64" else 50):
                        rec.note("ill-conditioned skipped"); continue
                    np_ = rec.call("name", NamedHierarchicalParam, "length_scale", hp)
                    where = f"knots {nk} features {f} batch {b} noise {noise}"
                    for fx in (hp.fixed, np_.fixed):
                        if bool(rec.call("fixed", fx)) != (not any(free)):
                            rec.fail("fixed", where)
                    names, ps, bs = [], [], []
                    np_.append_lists(names, ps, bs)
                    rec.trace()
                    if names != [f"length_scale{i}" for i in range(nk) if free[i]] or not np.allclose([float(p) for p in ps], [v[i] for i in range(nk) if free[i]], atol=1e-6):
                        rec.fail("lists", f"{where}: {names} {ps}")
                    if not closev(rec.call("knot_values", np_.knot_values), v, atol=1e-6):
                        rec.fail("knot_values", where)
                    qa = A(q[:, 0] if flat else q)
                    for sub in overrides(nk, case.get('ov', 20)):
                        vv = list(v)
                        kw = {}
                        for i in sub:
                            vv[i] = 0.4 + 0.17 * i + 0.05
                            kw[f"length_scale{i}"] = vv[i]
                        want = ref_ls(hs, kf, vv, nz, q)
                        got = rec.call("interpolate", np_, qa, **kw)
                        rec.state((h, nk, f, b, noise, tuple(free), sub, flat)); rec.trace()
                        if not closev(got, want, **tl()):
                            rec.fail("interpolate.flat" if flat else "interpolate", f"{where} overridden {sub}: {diffmsg(np.ravel(N(got)), want)}"); return
                        params, rest = rec.call("filter", np_.filter_kwargs, batch_features=qa, other=5, **kw)
                        if list(params) != ["length_scale"] or not closev(params["length_scale"], want, **tl()) or rest.get("other") != 5:
                            rec.fail("filter_kwargs", f"{where}: {params} {rest}"); return
                        rec.outcome((nk, f, b, round(float(want[0]), 9)))
                    if nz == 0.0:
                        got = rec.call("interpolate", np_, A(kf[:, 0] if flat else kf))
                        if not closev(got, v, **tl()):
                            rec.fail("interpolate.on-knot", f"{where}: {diffmsg(np.ravel(N(got)), np.array(v))}"); return
                    # the higher-level kernel and noise are changed afterwards: both sides of the solve follow
                    for what in ("kernel", "noise", "kernel") if all(free) or nk < 2 else ():
                        if what == "noise":
                            if parts[1] is None:
                                continue
                            nz = 3 * nz + 0.02
                            rec.call("higher.noise", parts[1]._set_val, nz)
                        else:
                            if hs.get("def") == "aniso":
                                hs = dict(hs, ls=[0.7 * l for l in hs["ls"]])
                                rec.call("higher.set_params", parts[0].set_params, **{f"length_scale{i}": P(l) for i, l in enumerate(hs["ls"])})
                            else:
                                hs = dict(hs, ls=0.7 * hs["ls"])
                                rec.call("higher.set_params", parts[0].set_params, length_scale=P(hs["ls"]))
                        if cond(hs, kf, nz) > (1e8 if FT == "64" else 50):
                            rec.note("ill-conditioned skipped"); break
                        for kw, vv in (({}, v), ({"length_scale0": 0.77}, [0.77] + list(v[1:]))):
                            want = ref_ls(hs, kf, vv, nz, q)
                            got = rec.call("interpolate", np_, qa, **kw)
                            rec.state((h, nk, f, b, noise, tuple(free), "later", what, nz, repr(hs["ls"]), tuple(kw), flat)); rec.trace()
                            if not closev(got, want, **tl()):
                                rec.fail("interpolate.higher-changed", f"{where} after the higher-level {what} changed: {diffmsg(np.ravel(N(got)), want)}"); return
                    hs, nz = hi_spec(h, f), (1e-5 if noise is None else noise)
        return
    if case["k"] == "kernel":
        return kernel(case, rec)
    return objective(case, rec)


def lo_spec(l):
    return dict(LO[l])


def mk_lo(l, hp):
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.kernels import Matern, RBF
    s = LO[l]
    if s["kernel"] == "rbf":
        return RBF(deformation=Isotropy(F2, hp))
    return Matern(smoothness=P(s["nu"]), deformation=Isotropy(l2, hp))


def ref_tens(l, ls, diffs):
    return np.stack([ref_k(dict(LO[l], ls=float(ls[i])), diffs[i]) for i in range(len(diffs))])


def kernel(case, rec):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.gp.tensors import batch_features_tensor
    h, l, nk = case["h"], case["l"], case["nk"]
    f = 2
    hs = hi_spec(h, f)
    for b, k in itertools.product(case["b"], case["nn"]):
        n = max(24, 2 * k, b + 3)
        train = pts(n, f)
        if FT == "32":
            train = train.astype(np.float32).astype(float)
        bi = (np.arange(b) * 5 + 2) % n
        nn = nbrs(train, train[bi], k, skip=bi)
        y = vals(n, 1)[:, 0]
        for noise in (1e-5, 0.3):
            hp, kf, v = mk_hier(h, f, nk, noise, [i % 2 == 0 for i in range(nk)])
            if cond(hs, kf, noise) > (1e8 if FT == "64" else 50):
                rec.note("ill-conditioned skipped"); continue
            m = rec.call("construct", MuyGPS, kernel=mk_lo(l, hp), noise=HomoscedasticNoise(0.05))
            bf = rec.call("batch_features_tensor", batch_features_tensor, A(train), I(bi))
            if not close(bf, train[bi]):
                rec.fail("batch_features_tensor", diffmsg(bf, train[bi])); return
            cr, pr, bt, nt = rec.call("make_train_tensors", m.make_train_tensors, I(bi), I(nn), A(train), A(y))
            for sub in ([], [0], [nk - 1], list(range(nk)), list(reversed(range(nk)))):
                vv = list(v); kw = {}
                for i in sub:
                    vv[i] = 0.5 + 0.11 * i
                    kw[f"length_scale{i}"] = vv[i]
                ls = ref_ls(hs, kf, vv, noise, train[bi])
                if ls.min() < 0.05:
                    continue
                wi, wc = ref_tens(l, ls, pair_diffs(train, nn)), ref_tens(l, ls, cross_diffs(train[bi], train, nn))
                Kin = rec.call("kernel", m.kernel, pr, batch_features=bf, **kw)
                Kc = rec.call("kernel", m.kernel, cr, batch_features=bf, **kw)
                Ko = rec.call("kernel-opt", m.kernel.get_opt_fn(), pr, batch_features=bf, **kw)
                rec.state((h, l, nk, b, k, noise, tuple(sub))); rec.trace(3)
                where = f"knots {nk} batch {b} neighbors {k} overridden {sub}"
                for s, g, w in (("Kin", Kin, wi), ("Kcross", Kc, wc), ("opt", Ko, wi)):
                    if not close(g, w, **tl()):
                        rec.fail("kernel." + s, f"{where}: {diffmsg(g, w)}"); return
                if not sub:
                    mu, va = ref_post({}, wi, wc, y[nn], dict(t="homo", v=0.05))
                    if not closev(rec.call("mean", m.posterior_mean, Kin, Kc, nt), mu, **tl()) or not closev(rec.call("variance", m.posterior_variance, Kin, Kc), va, **tl()):
                        rec.fail("posterior", where); return
                    # queries one at a time and in reverse give the same rows
                    for rows in [[i] for i in range(min(b, 5))] + [list(reversed(range(b)))]:
                        K1 = rec.call("kernel", m.kernel, pr[rows], batch_features=bf[rows])
                        if not close(K1, wi[rows], **tl()):
                            rec.fail("kernel.rows", f"{where} rows {rows}: {diffmsg(K1, wi[rows])}"); return
                # setting a knot by name changes what it was overridden to, for good
            if nk >= 2:
                m.kernel.set_params(**{f"length_scale{nk - 1}": P(0.9)})
                vv = list(v); vv[nk - 1] = 0.9
                ls = ref_ls(hs, kf, vv, noise, train[bi])
                Kin = rec.call("kernel", m.kernel, pr, batch_features=bf)
                if ls.min() > 0.05 and not close(Kin, ref_tens(l, ls, pair_diffs(train, nn)), **tl()):
                    rec.fail("kernel.after-set", diffmsg(Kin, ref_tens(l, ls, pair_diffs(train, nn)))); return


def objective(case, rec):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
    import c06
    h, l, free = case["h"], case["l"], case["free"]
    nk, f, b, k = len(free), 2, 5, 4
    hs = hi_spec(h, f)
    train = pts(24, f); bi = (np.arange(b) * 4 + 1) % 24; nn = nbrs(train, train[bi], k, skip=bi); y = vals(24, 1)[:, 0]
    noise = 1e-3
    for nfree, loss in itertools.product((False, True), ("mse", "lool", "looph")):
        hp, kf, v = mk_hier(h, f, nk, noise, free)
        m = rec.call("construct", MuyGPS, kernel=mk_lo(l, hp), noise=HomoscedasticNoise(0.05, (0.01, 1.0)) if nfree else HomoscedasticNoise(0.05))
        names = [f"length_scale{i}" for i in range(nk) if free[i]] + (["noise"] if nfree else [])
        got_names, got_vals, got_b = rec.call("get_opt_params", m.get_opt_params)
        rec.trace()
        if list(got_names) != names or bool(m.fixed()) != (not names):
            rec.fail("opt_params", f"{got_names} fixed={m.fixed()} for free knots {free}"); return
        cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
        bf = A(train[bi])

        def value(p):
            vv = [p.get(f"length_scale{i}", v[i]) for i in range(nk)]
            ls = ref_ls(hs, kf, vv, noise, train[bi])
            if ls.min() < 0.05:
                return None
            Kin, Kc = ref_tens(l, ls, pair_diffs(train, nn)), ref_tens(l, ls, cross_diffs(train[bi], train, nn))
            mu, va = ref_post({}, Kin, Kc, y[nn], dict(t="homo", v=p.get("noise", 0.05)))
            return -c07.rloss(loss, mu[:, 0], y[bi], va, 1.0, {})
        obj = rec.call("make_obj_fn", L_BFGS_B_optimize.make_obj_fn, m, bt, nt, cr, pr, batch_features=bf, loss_fn=c07.loss_obj(loss))
        for r in range(len(names) + 1):
            for sub in itertools.permutations(names, r) if len(names) <= 3 else itertools.combinations(names, r):
                p = {n: (0.12 if n == "noise" else 0.55 + 0.13 * int(n[12:])) for n in sub}
                w = value(p)
                if w is None:
                    continue
                g = float(np.ravel(N(rec.call("objective", obj, **p)))[0])
                rec.state((h, l, tuple(free), nfree, loss, sub)); rec.trace()
                if abs(g - w) > (1e-6 if FT == "64" else 1e-2) * max(1, abs(w)):
                    rec.fail("objective", f"{g} instead of {w} at {p}"); return
                rec.outcome(round(w, 8))
        if not names or TORCH:
            continue
        # scripted optimizer answers map onto the knots
        for which in (0, 1):
            ans = {n: ((0.2 if which else 5.0) if n == "noise" else (0.7 + 0.1 * int(n[12:]) if which == 0 else 9.0)) for n in names}
            clip = {n: min(max(a, 0.01 if n == "noise" else 0.05), 1.0 if n == "noise" else 6.0) for n, a in ans.items()}
            from scipy.optimize import OptimizeResult
            with seams.fake_minimize(lambda fun, x0, *a, **kk: OptimizeResult(x=np.array([ans[n] for n in names]), fun=0.0, success=True)):
                m2 = rec.call("L_BFGS_B", L_BFGS_B_optimize, m, bt, nt, cr, pr, batch_features=bf, loss_fn=c07.loss_obj(loss))
            with seams.fake_bayes(c06.FakeBO({}, lambda keys: ans)):
                m3 = rec.call("Bayes", Bayes_optimize, m, bt, nt, cr, pr, batch_features=bf, loss_fn=c07.loss_obj(loss), random_state=1)
            for mm_, who in ((m2, "L_BFGS_B"), (m3, "Bayes")):
                vv = [clip.get(f"length_scale{i}", v[i]) for i in range(nk)]
                ls = ref_ls(hs, kf, vv, noise, train[bi])
                rec.trace()
                if ls.min() > 0.05:
                    K2 = mm_.kernel(pr, batch_features=bf)
                    if not close(K2, ref_tens(l, ls, pair_diffs(train, nn)), **tl()):
                        rec.fail("optimized." + who, f"answers {ans}: {diffmsg(K2, ref_tens(l, ls, pair_diffs(train, nn)))}"); return
            K1 = m.kernel(pr, batch_features=bf)
            if not close(K1, ref_tens(l, ref_ls(hs, kf, v, noise, train[bi]), pair_diffs(train, nn)), **tl()):
                rec.fail("optimized.input-model", "the input model changed"); return
