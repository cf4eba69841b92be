"""C20: noise models. Every noise model x value x tensor shape (all small shapes, coinciding counts, ladders, block tensors), and every
operation of a model that consumes the noise, which must apply it exactly once."""
import itertools
import seams
import numpy as np
from ref import *

VALS = [0.0, 1e-14, 1e-8, 1e-5, 1e-3, 0.5, 1.0, 7.25, 1e4]
SMALL = [1, 2, 3, 4, 5, 6]
LAD = [(1, 1), (10, 10), (16, 16), (17, 33), (33, 17), (64, 30), (30, 64), (100, 5), (5, 100), (101, 10), (128, 2), (257, 3), (513, 2), (1000, 1), (1025, 4), (2049, 2), (4097, 3), (5001, 2), (10001, 1), (2, 128), (50, 50)]


def cases(tier, env):
    out = []
    for t in ("homo", "hetero", "null"):
        for b in SMALL:
            out.append(dict(k="perturb", t=t, b=b))
        for b, k in LAD + ([(2049, 6), (200, 100)] if tier == "thorough" else []):
            out.append(dict(k="perturb", t=t, b=b, nn=k))
    for t in ("homo", "shear"):
        for c in (1, 2, 3):
            if t == "shear" and c != 3:
                continue
            for b in SMALL:
                out.append(dict(k="block", t=t, b=b, c=c))
            out.append(dict(k="block", t=t, b=33, c=c, nn=[10])); out.append(dict(k="block", t=t, b=9, c=c, nn=[3, 9, 30]))
    out.append(dict(k="tensor"))
    out.append(dict(k="wrap"))
    out.append(dict(k="construct"))
    for t in ("homo", "homo-free", "hetero", "null"):
        for kern in ("rbf", "m05", "m15", "aniso"):
            for b in (1, 2, 3, 4, 5, 9):
                out.append(dict(k="once", t=t, kern=kern, b=b))
    out += with_layouts([c for c in out if c["k"] in ("perturb", "block") and c["b"] < 40 or c["k"] == "tensor" or (c["k"] == "once" and c["b"] in (3, 4))])
    return out


def raw(*shape):
    """a tensor all of whose entries differ (not even symmetric: noise must not care)"""
    n = int(np.prod(shape))
    x = np.mod(np.arange(1, n + 1) * 0.6180339887498949, 1.0) * 2 - 0.7
    return x.reshape(shape)


def make(t, v):
    from MuyGPyS.gp.noise import ShearNoise33, HomoscedasticNoise, HeteroscedasticNoise, NullNoise
    return {"homo": lambda: HomoscedasticNoise(v), "shear": lambda: ShearNoise33(v), "hetero": lambda: HeteroscedasticNoise(A(v)), "null": lambda: NullNoise()}[t]()


def check(rec, sig, where, x, got, add):
    """got = x + diag(add) with the off-diagonal bit for bit; add (b, m) over the flattened in-dimensions"""
    rec.trace()
    g, x = N(got), N(x)
    rec.outcome((sig, g.shape, float(g.reshape(-1)[0])))
    if g.shape != x.shape:
        rec.fail(sig + ".shape", f"{where}: {g.shape}"); return False
    b = x.shape[0]; m = add.shape[1]
    gf, xf = g.reshape(b, m, m).astype(float), x.reshape(b, m, m).astype(float)
    off = ~np.eye(m, dtype=bool)
    if not np.array_equal(gf[:, off], xf[:, off]):
        rec.fail(sig + ".off-diagonal", where); return False
    i = np.arange(m)
    w = xf[:, i, i] + add
    t = 1e-13 if FT == "64" else 1e-6
    if not np.allclose(gf[:, i, i], w, rtol=t, atol=t * 2):
        d = np.abs(gf[:, i, i] - w); a = np.unravel_index(np.argmax(d), d.shape)
        rec.fail(sig + ".diagonal", f"{where}: entry {a} is {gf[:, i, i][a]} instead of {w[a]}"); return False
    if str(g.dtype) != ("float64" if FT == "64" else "float32"):
        rec.fail(sig + ".dtype", f"{where}: {g.dtype}"); return False
    return True


def het(b, k, s):
    return s * (1 + np.arange(b)[:, None] * 0.37 + np.arange(k)[None, :] * 0.011 + ((np.arange(b)[:, None] * 7 + np.arange(k)[None, :] * 3) % 5))


def run(case, rec):
    kind = case["k"]
    if kind == "perturb":
        b, t = case["b"], case["t"]
        for k in ([case["nn"]] if "nn" in case else SMALL):
            for v in (VALS if t != "null" else [0.0]):
                val = het(b, k, v) if t == "hetero" else v
                forms = [val]
                if t == "hetero":
                    z = np.zeros((b, k)); z[-1, -1] = v; z[0, k // 2] += 2 * v
                    forms.append(z)
                for val in forms:
                    x = A(raw(b, k, k)); x0 = N(x).copy()
                    n = rec.call("construct", make, t, val)
                    got = rec.call("perturb", n.perturb, x)
                    rec.state((t, b, k, v, repr(np.ravel(val)[-1])))
                    add = np.broadcast_to(val, (b, k)) if t == "hetero" else np.full((b, k), val)
                    add = np.asarray(N(A(np.array(add))), float)
                    ok = check(rec, f"perturb.{t}", f"batch {b} neighbors {k} value {v}", x0, got, add)
                    if not np.array_equal(N(x), x0):
                        rec.fail(f"perturb.{t}.input", "input tensor changed"); ok = False
                    again = rec.call("perturb", n.perturb, x)
                    if not np.array_equal(N(again), N(got)):
                        rec.fail(f"perturb.{t}.repeat", "second call differs"); ok = False
                    if t == "homo":
                        for o in (0.0, 0.25):
                            ok &= check(rec, "perturb.override", f"override {o}", x0, rec.call("perturb", n.perturb, x, noise=o), np.full((b, k), o))
                        ok &= check(rec, "perturb.after-override", f"value {v}", x0, rec.call("perturb", n.perturb, x), add)
                    if t != "homo":
                        ok &= check(rec, f"perturb.{t}.ignored-kwarg", "unknown keywords", x0, rec.call("perturb", n.perturb, x, foo=3), add)
                    if not ok:
                        return
        return
    if kind == "block":
        b, c, t = case["b"], case["c"], case["t"]
        for k in case.get("nn", SMALL):
            for v in VALS:
                x = A(raw(b, c, k, c, k)); x0 = N(x).copy()
                n = rec.call("construct", make, t, v)
                got = rec.call("perturb", n.perturb, x)
                add = np.full((b, c, k), float(N(A(np.array(v)))))
                if t == "shear":
                    add[:, 0] *= 2      # the convergence carries twice the shear variance
                rec.state((t, b, c, k, v))
                ok = check(rec, f"block.{t}", f"batch {b} components {c} neighbors {k} value {v}", x0, got, add.reshape(b, c * k))
                add2 = np.full((b, c, k), 0.125)
                if t == "shear":
                    add2[:, 0] *= 2
                ok &= check(rec, f"block.{t}.override", f"batch {b} components {c} neighbors {k}", x0, rec.call("perturb", n.perturb, x, noise=0.125), add2.reshape(b, c * k))
                if not np.array_equal(N(x), x0):
                    rec.fail(f"block.{t}.input", "input tensor changed"); ok = False
                if not ok:
                    return
        return
    if kind == "tensor":
        from MuyGPyS.gp.tensors import make_heteroscedastic_tensor
        for n in (1, 2, 3, 4):
            y = A(raw(n) ** 2 + 0.1)
            for b, k in itertools.product((1, 2, 3), (1, 2, 3)):
                tab = itertools.product(range(n), repeat=b * k) if n ** (b * k) <= 5000 else [tuple((i * 5 + i * i * s + s) % n for i in range(b * k)) for s in range(50)]
                for flat in tab:
                    nn = np.array(flat).reshape(b, k)
                    got = rec.call("make_heteroscedastic_tensor", make_heteroscedastic_tensor, y, I(nn))
                    rec.state((n, b, k, flat)); rec.trace()
                    if not eq(got, N(y)[nn]):
                        rec.fail("make_heteroscedastic_tensor", f"{nn.tolist()}"); return
                    if flat[0] == 0:
                        from MuyGPyS.gp.noise import HeteroscedasticNoise
                        x = raw(b, k, k)
                        if not check(rec, "heteroscedastic.from-table", f"{nn.tolist()}", N(A(x)), rec.call("perturb", HeteroscedasticNoise(got).perturb, A(x)), N(y)[nn].astype(float)):
                            return
        return
    if kind == "wrap":
        for t, b, k in itertools.product(("homo", "hetero", "null"), (1, 2, 3, 4), (1, 2, 3, 4)):
            v = het(b, k, 0.3) if t == "hetero" else 0.3
            n = make(t, v)
            seen = []

            def fn(Kin, *args, **kw):
                seen.append((N(Kin).copy(), args, kw))
                return "answer"
            x = A(raw(b, k, k)); x0 = N(x).copy()
            f = rec.call("perturb_fn", n.perturb_fn, fn)
            forms = [((), {}), (("a", 2), {}), ((1,), dict(z=3)), ((), dict(batch_size=1, q=2))]
            if t == "homo":
                forms += [((1, 2), dict(noise=0.0)), ((), dict(noise=0.77, z=1)), ((), {})]
            for args, kw in forms:
                r = rec.call("perturbed", f, x, *args, **kw)
                rec.state((t, b, k, args, tuple(kw)))
                Kin, a, kk = seen[-1]
                vv = {"homo": kw.get("noise", 0.3), "hetero": v, "null": 0.0}[t]
                add = np.asarray(N(A(np.broadcast_to(np.asarray(vv, float), (b, k)).copy())), float)
                if not check(rec, f"perturb_fn.{t}", f"args {args} keywords {kw}", x0, Kin, add):
                    return
                want = {q: z for q, z in kw.items() if not (t == "homo" and q == "noise")}
                if r != "answer" or a != args or kk != want or len(seen) == 0:
                    rec.fail(f"perturb_fn.{t}.arguments", f"inner function got {a} {kk} for {args} {kw}"); return
            if len(seen) != len(forms):
                rec.fail(f"perturb_fn.{t}.calls", f"{len(seen)} calls of the wrapped function for {len(forms)}")
        return
    if kind == "construct":
        return construct(rec)
    return once(case, rec)


def construct(rec):
    from MuyGPyS.gp.noise import HomoscedasticNoise, HeteroscedasticNoise, NullNoise, ShearNoise33

    def ok(sig, f, legal, detail):
        rec.state((sig, detail)); rec.trace()
        try:
            r = f()
            if not legal:
                rec.fail(sig + ".accepted", detail)
            return r
        except (ValueError, TypeError) as e:
            if legal:
                rec.fail(sig + ".refused", f"{detail}: {e}")
    for b, k in itertools.product((1, 2, 3), (1, 2, 3)):
        for pos in itertools.product(range(b), range(k)):
            for v in (-1.0, -1e-9, -1e4, 0.0, 1e-9):
                x = het(b, k, 0.2); x[pos] = v
                n = ok("heteroscedastic", lambda: HeteroscedasticNoise(A(x)), v >= 0, f"entry {pos} = {v}")
                if n is not None and (not eq(n(), N(A(x))) or n.fixed() is not True):
                    rec.fail("heteroscedastic.value", f"{N(n())}")
    for cls in (HomoscedasticNoise, ShearNoise33):
        for lo, hi in itertools.product((-2.0, -1e-9, 0.0, 1e-6, 0.5), (-1.0, 0.5, 1e-3, 2.0)):
            if lo >= hi or not lo <= 0.2 <= hi:
                continue
            n = ok("homoscedastic.bounds", lambda: cls(0.2, (lo, hi)), lo >= 0 and hi >= 0, f"bounds {(lo, hi)}")
            if n is not None:
                names, params, bounds = [], [], []
                n.append_lists(names, params, bounds)
                if names != ["noise"] or not closev(params[0], 0.2, atol=1e-6) or not closev(np.asarray(N(bounds[0]) if not isinstance(bounds[0], tuple) else [float(z) for z in bounds[0]]), np.array([lo, hi]), atol=1e-6) or n.fixed():
                    rec.fail("homoscedastic.lists", f"{names} {params} {bounds}")
        n = cls(0.2)
        names, params, bounds = ["x"], [1.0], [(0, 2)]
        n.append_lists(names, params, bounds)
        if names != ["x"] or not n.fixed() or not closev(n(), 0.2, atol=1e-6):
            rec.fail("homoscedastic.fixed", f"{names} {n()}")
    for args in ((), (0.5,), (0.5, (0.1, 1.0))):
        n = rec.call("null", NullNoise, *args)
        names = []
        n.append_lists(names, names, names)
        if n() != 0.0 or not n.fixed() or names:
            rec.fail("null.value", f"{n()} {names}")


def once(case, rec):
    """each consumer sees the noise once"""
    from MuyGPyS.optimize import L_BFGS_B_optimize
    import MuyGPyS.optimize.loss as L
    b = case["b"]
    for k, sc in itertools.product((1, 2, 3, 4, 7), (dict(t="analytic"), dict(t="analytic", iteration_count=2), dict(t="down", down_count=2, iteration_count=1))):
        if sc["t"] == "down" and k < 3:
            continue
        noise = {"homo": dict(t="homo", v=0.4), "homo-free": dict(t="homo", v=0.4, b=[0.01, 2.0]), "null": dict(t="null"),
                 "hetero": dict(t="hetero", v=het(b, k, 0.2).tolist())}[case["t"]]
        spec = dict(kernel="rbf" if case["kern"] in ("rbf", "aniso") else "matern", nu={"m05": 0.5, "m15": 1.5}.get(case["kern"]), ls=0.5, noise=noise, scale=sc)
        if case["kern"] == "aniso":
            spec.update({"def": "aniso", "ls": [0.4, 0.7]})
        n_ = max(20, b + 9)
        train = pts(n_, 2)
        if FT == "32":
            train = train.astype(np.float32).astype(float)
        bi = (np.arange(b) * 3 + 1) % n_
        nn = nbrs(train, train[bi], k, skip=bi)
        y = N(A(vals(n_, 1)[:, 0])).astype(float)
        m = rec.call("construct", mk_model, spec)
        cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
        Kin, Kc = m.kernel(pr), m.kernel(cr)
        K0 = N(Kin).copy()
        rKin, rKc = ref_k(spec, pair_diffs(train, nn)), ref_k(spec, cross_diffs(train[bi], train, nn))
        cond = max(np.linalg.cond(rKin[i] + np.diag(noise_diag(noise, b, k)[i])) for i in range(b))
        if cond > (1e7 if FT == "64" else 50):
            continue
        t = dict(rtol=1e-6, atol=1e-7) if FT == "64" else dict(rtol=1e-3, atol=1e-3)
        trials = [None] + ([0.01, 0.9, 2.0] if case["t"] == "homo-free" else [])
        for nv in trials:
            ns = noise if nv is None else dict(t="homo", v=nv)
            kw = {} if nv is None else dict(noise=nv)
            mu, v = ref_post(spec, rKin, rKc, y[nn], ns)
            nd = noise_diag(ns, b, k)
            rec.state((case["t"], case["kern"], b, k, repr(sc), nv)); rec.trace(6)
            where = f"batch {b} neighbors {k} noise {case['t']} override {nv}"

            def cmp(sig, got, want):
                if not closev(got, want, **t):
                    rec.fail("once." + sig, f"{where}: {diffmsg(N(got).ravel(), np.ravel(want))}")
                    raise core_stop
            try:
                cmp("opt-mean", rec.call("opt_mean", m.get_opt_mean_fn(), Kin, Kc, nt, **kw), mu)
                cmp("opt-variance", rec.call("opt_var", m.get_opt_var_fn(), Kin, Kc, **kw), v)
                if sc["t"] == "analytic":
                    cmp("opt-scale", rec.call("opt_scale", m.scale.get_opt_fn(m), Kin, nt, **kw), ref_scale(rKin, y[nn], ns, sc.get("iteration_count", 1)))
                else:
                    P_ = rKin + nd[:, :, None] * np.eye(k)
                    with seams.Draws(lambda n, s, i: [0, 2][:s], 2):
                        cmp("opt-scale-down", rec.call("opt_scale", m.scale.get_opt_fn(m), Kin, nt, **kw), ref_scale(P_[:, [0, 2]][:, :, [0, 2]], y[nn][:, [0, 2]], dict(t="null")))
                if nv is None:
                    cmp("mean", rec.call("mean", m.posterior_mean, Kin, Kc, nt), mu)
                    cmp("variance", rec.call("variance", m.posterior_variance, Kin, Kc), v)
                    cmp("coefficients", rec.call("coefficients", m.fast_coefficients, Kin, nt), np.stack([np.linalg.solve(rKin[i] + np.diag(nd[i]), y[nn][i]) for i in range(b)]))
                    with seams.Draws(lambda n, s, i: [0, 2][:s], 2):
                        m2 = rec.call("optimize_scale", mk_model(spec).optimize_scale, pr, nt)
                    if sc["t"] == "analytic":
                        cmp("scale", m2.scale(), ref_scale(rKin, y[nn], ns, sc.get("iteration_count", 1)))
                if sc["t"] == "analytic" and case["t"] != "null":
                    obj = L_BFGS_B_optimize.make_obj_fn(m, bt, nt, cr, pr, loss_fn=L.lool_fn)
                    cmp("objective", rec.call("objective", obj, **kw), -ref_lool(mu[:, 0], y[bi], v, ref_scale(rKin, y[nn], ns, sc.get("iteration_count", 1))))
                if not np.array_equal(N(Kin), K0):
                    rec.fail("once.input-changed", where); return
            except StopCase:
                return


class StopCase(Exception):
    pass


core_stop = StopCase()
