"""C04: all histories (depth-bounded) of operations on live models. An abstract model state (plain parameter values) is
stepped alongside; after every operation every live model must be observably a model freshly built from its state."""
import copy, itertools
import seams
import numpy as np
from ref import *

B, K, F, R = 4, 3, 2, 1
BASE = [
    dict(kernel="matern", nu=1.5, ls=0.8, lsb=[0.05, 5.0], noise=dict(t="homo", v=0.01, b=[1e-4, 0.5]), scale=dict(t="analytic")),
    dict(kernel="rbf", ls=0.8, lsb=[0.05, 5.0], noise=dict(t="homo", v=0.01), scale=dict(t="fixed", val=2.0)),
    dict(kernel="matern", nu=0.9, nub=[0.2, 4.0], ls=0.8, lsb="fixed", noise=dict(t="homo", v=0.01), scale=dict(t="down", down_count=2, iteration_count=2)),
    dict(kernel="matern", nu=2.5, ls=[0.8, 1.4], lsb=[[0.05, 5.0], "fixed"], noise=dict(t="null"), scale=dict(t="analytic", iteration_count=3), **{"def": "aniso"}),
    dict(kernel="rbf", ls=[0.8, 1.4], lsb=[[0.05, 5.0], [0.05, 5.0]], noise=dict(t="hetero", v=[[0.01 * (1 + i + j) for j in range(K)] for i in range(B)]), scale=dict(t="analytic"), **{"def": "aniso"}),
    dict(kernel="rbf", ls=0.6, lsb=[0.05, 5.0], noise=dict(t="homo", v=0.02, b=[1e-4, 0.5]), scale=dict(t="fixed"), **{"def": "diso"}),
]


def data(salt):
    train = pts(18, F, salt)
    bi = np.array([2, 9, 4, 13])
    nn = nbrs(train, train[bi], K, skip=bi)
    y = vals(18, 1, salt)[:, 0] * (1 + salt)
    return train, bi, nn, y


D = [data(0.0), data(0.43)]
SUB = (0, 2)      # the scripted down-sampling draw


def free_names(st):
    out = []
    lb = st.get("lsb", "fixed" if st.get("def") != "aniso" else ["fixed"] * len(st["ls"]))
    if st.get("def") == "aniso":
        out += [(f"length_scale{i}", tuple(b)) for i, b in enumerate(lb) if b != "fixed"]
    elif lb != "fixed":
        out.append(("length_scale", tuple(lb)))
    if st["kernel"] == "matern" and st.get("nub", "fixed") != "fixed":
        out.append(("smoothness", tuple(st["nub"])))
    if st["noise"].get("b", "fixed") != "fixed":
        out.append(("noise", tuple(st["noise"]["b"])))
    return out


def put(st, name, v):
    if name == "noise":
        st["noise"] = dict(st["noise"], v=v)
    elif name == "smoothness":
        st["nu"] = v
    elif name == "length_scale":
        st["ls"] = v
    else:
        st["ls"] = list(st["ls"]); st["ls"][int(name[12:])] = v


def ref_scale_of(st, d):
    train, bi, nn, y = d
    Kin = ref_k(st, pair_diffs(train, nn))
    sc = st["scale"]
    if sc["t"] == "fixed":
        return st["sval"]
    if sc["t"] == "analytic":
        return ref_scale(Kin, y[nn], st["noise"], sc.get("iteration_count", 1))
    s = list(SUB)
    nd = noise_diag(st["noise"], *Kin.shape[:2])
    K_ = (Kin + nd[:, :, None] * np.eye(Kin.shape[1]))[:, s][:, :, s]
    return ref_scale(K_, y[nn][:, s], dict(t="null"))


def fresh(st):
    spec = copy.deepcopy(st)
    sc = spec.pop("scale"); spec["scale"] = dict(sc, val=st["sval"]); spec.pop("sval"); spec.pop("trained", None)
    return mk_model(spec)


OPS = ["set-ls-a", "set-ls-b", "set-nu", "scale-A", "scale-B", "optimize-1", "optimize-2", "copy", "predict", "kernel-override", "objective", "swap"]


def cases(tier, env):
    out = []
    depth = 4 if tier == "thorough" else 3
    for s in range(len(BASE)):
        if TORCH and s == 2:
            continue
        for first in range(len(OPS)):
            if depth == 3:
                out.append(dict(k="hist", s=s, first=[first], depth=2))
            else:
                for second in range(len(OPS)):
                    out.append(dict(k="hist", s=s, first=[first, second], depth=2))
    # one long life: a single set of live models goes through a sequence that contains every word of operations of a length
    for s in range(len(BASE)):
        if TORCH and s == 2:
            continue
        for rev in (False, True):
            out.append(dict(k="life", s=s, n=3 if tier == "thorough" else 2, rev=rev))
    for mode in ("defaults", "params", "noise-default", "scale-default"):
        out.append(dict(k="pair", mode=mode))
    return out


def observe(rec, m, d):
    train, bi, nn, y = d
    cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
    Kin, Kc = m.kernel(pr), m.kernel(cr)
    names, params, bounds = m.get_opt_params()
    return dict(Kin=N(Kin), Kcross=N(Kc), mean=N(m.posterior_mean(Kin, Kc, nt)), var=N(m.posterior_variance(Kin, Kc)),
                coeffs=N(m.fast_coefficients(Kin, nt)), scale=N(m.scale()).astype(float).reshape(-1), fixed=bool(m.fixed()),
                names=list(names), params=N(params).astype(float), bounds=N(bounds).astype(float),
                opt_mean=N(m.get_opt_mean_fn()(Kin, Kc, nt)), opt_var=N(m.get_opt_var_fn()(Kin, Kc)),
                opt_kernel=N(m.kernel.get_opt_fn()(pr)), kparams={n: N(h()).astype(float).reshape(-1) for n, h in m.kernel._hyperparameters.items()})


def expect(st, d, m0):
    """reference observation from plain parameter values"""
    train, bi, nn, y = d
    Kin = ref_k(st, pair_diffs(train, nn)); Kc = ref_k(st, cross_diffs(train[bi], train, nn))
    mu, v = ref_post(st, Kin, Kc, y[nn], st["noise"])
    nd = noise_diag(st["noise"], B, K)
    co = np.array([np.linalg.solve(Kin[i] + np.diag(nd[i]), y[nn][i]) for i in range(B)])
    fr = free_names(st)

    def val(n):
        if n == "noise":
            return st["noise"]["v"]
        if n == "smoothness":
            return st["nu"]
        return st["ls"] if n == "length_scale" else st["ls"][int(n[12:])]
    kp = {}
    if st.get("def") == "aniso":
        for i, l in enumerate(st["ls"]):
            kp[f"length_scale{i}"] = l
    else:
        kp["length_scale"] = st["ls"]
    if st["kernel"] == "matern":
        kp["smoothness"] = st["nu"]
    return dict(Kin=Kin, Kcross=Kc, mean=mu[:, 0], var=v * st["sval"], coeffs=co, scale=np.array([st["sval"]]), fixed=not fr,
                names=[n for n, _ in fr], params=np.array([val(n) for n, _ in fr], float), bounds=np.array([b for _, b in fr], float).reshape(-1, 2) if fr else np.array([]),
                opt_mean=mu[:, 0], opt_var=v, opt_kernel=Kin, kparams={n: np.array([float(v)]) for n, v in kp.items()})


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bool, list)):
        return a == b
    t = dict(rtol=1e-6, atol=1e-7) if FT == "64" else dict(rtol=3e-3, atol=3e-3)
    return np.shape(a) == np.shape(b) and np.allclose(a, b, **t)


_cache = {}


def expected(st, di):
    key = (repr(st), di)
    if key not in _cache:
        if len(_cache) > 5000:
            _cache.clear()
        _cache[key] = expect(st, D[di], None)
    return _cache[key]


def check(rec, live, hist, di):
    for who, (m, st) in enumerate(live):
        try:
            o = observe(rec, m, D[di])
        except Exception as e:
            rec.fail("history.raises:" + type(e).__name__, f"{e} after {hist}")
            return False
        w = expected(st, di)
        rec.trace()
        for k in w:
            if not same(o[k], w[k]):
                role = "current" if who == 0 else "other"
                rec.fail(f"history.{role}-model.{k}", f"after {hist}: {k} is {o[k]}, a model freshly built with its parameters has {w[k]}")
                return False
        rec.outcome(repr((st["ls"], st.get("nu"), st["noise"].get("v"), round(st["sval"], 8))))
    return True


def answers(st, which):
    """what the scripted optimizer answers, and the state that results"""
    out = []
    for i, (n, b) in enumerate(free_names(st)):
        lo, hi = b
        out.append([lo + (hi - lo) * (0.3 + 0.1 * i), hi + 1.0 if i % 2 == 0 else lo - 0.7][which])
    return out


def step(rec, live, op, age=0):
    """returns False if the op does not apply; `age` varies the values"""
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.optimize import L_BFGS_B_optimize
    m, st = live[0]
    if op in ("set-ls-a", "set-ls-b"):
        v = (0.5 if op.endswith("a") else 1.7) + 0.003 * age
        if st.get("def") == "aniso":
            i = 0 if op.endswith("a") else 1
            n, b = f"length_scale{i}", st["lsb"][i]
        else:
            n, b = "length_scale", st["lsb"]
        rec.call("set_params", m.kernel.set_params, **{n: P(v, b)})
        put(st, n, v)
    elif op == "set-nu":
        if st["kernel"] != "matern":
            return False
        v = (0.5 if st["nu"] == 2.5 else 2.5) if st.get("nub", "fixed") == "fixed" else 1.3
        rec.call("set_params", m.kernel.set_params, smoothness=P(v, st.get("nub", "fixed")))
        put(st, "smoothness", v)
    elif op in ("scale-A", "scale-B"):
        d = D[0 if op.endswith("A") else 1]
        train, bi, nn, y = d
        pr = m.make_train_tensors(I(bi), I(nn), A(train), A(y))[1]
        with seams.Draws(lambda n, s, i: list(SUB)[:s], len(SUB)):
            ret = rec.call("optimize_scale", m.optimize_scale, pr, A(y[nn]))
        if ret is not m:
            rec.fail("optimize_scale.returns-self")
        st["sval"] = float(ref_scale_of(st, d))
        st["trained"] = True
    elif op.startswith("optimize"):
        fr = free_names(st)
        if not fr or TORCH:
            return False
        ans = answers(st, int(op[-1]) - 1)

        def fake(fun, x0, *a, **k):
            from scipy.optimize import OptimizeResult
            return OptimizeResult(x=np.array(ans), fun=0.0, success=True)
        train, bi, nn, y = D[0]
        cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
        with seams.fake_minimize(fake):
            m2 = rec.call("optimize", L_BFGS_B_optimize, m, bt, nt, cr, pr)
        st2 = copy.deepcopy(st)
        for (n, (lo, hi)), v in zip(fr, ans):
            put(st2, n, min(max(v, lo), hi))
        live.insert(0, (m2, st2))
        del live[3:]
    elif op == "copy":
        if TORCH and st.get("trained"):
            return False      # torch: autograd tensors that are not leaves cannot be deep copied
        live.insert(0, (copy.deepcopy(m), copy.deepcopy(st)))
        del live[3:]
    elif op == "swap":
        if len(live) < 2:
            return False
        live.append(live.pop(0))
    elif op == "predict":
        observe(rec, m, D[1])
    elif op == "kernel-override":
        train, bi, nn, y = D[0]
        cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
        n = "length_scale0" if st.get("def") == "aniso" else "length_scale"
        rec.call("kernel-override", m.kernel, pr, **{n: 3.3 + age})
    elif op == "objective":
        train, bi, nn, y = D[0]
        cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
        obj = L_BFGS_B_optimize.make_obj_fn(m, bt, nt, cr, pr)
        with seams.Draws(lambda n, s, i: list(SUB)[:s], len(SUB)):
            rec.call("objective", obj, **{n: 0.5 * (b[0] + b[1]) for n, b in free_names(st)})
    rec.trans()
    return True


def run(case, rec):
    if case["k"] == "pair":
        return pair(case["mode"], rec)
    base = BASE[case["s"]]
    n = len(OPS)
    if case["k"] == "life":
        st = copy.deepcopy(base)
        st["sval"] = float(st["scale"].get("val", 1.0))
        live = [(mk_model(base), st)]
        hist = []
        word = de_bruijn(n, case["n"])
        for j, o in enumerate(reversed(word) if case["rev"] else word):
            # the first model is swapped in and out, so that the oldest and the youngest both keep working
            if OPS[o] == "optimize-1" and len(hist) % 5 == 0 and len(live) == 3:
                live.append(live.pop(0))
            if not step(rec, live, OPS[o], len(hist) % 97 if case["n"] == 2 else len(hist) % 389):
                continue
            hist.append(OPS[o])
            rec.state((case["s"], "life", case["rev"], len(hist)))
            if not check(rec, live, f"{len(hist)} operations ending in {hist[-6:]}", j % 2):
                return
        rec.note("lives")
        return
    for rest in itertools.product(range(n), repeat=case["depth"]):
        seq = list(case["first"]) + list(rest)
        st = copy.deepcopy(base)
        st["sval"] = float(st["scale"].get("val", 1.0))
        live = [(mk_model(base), st)]
        hist = []
        good = True
        for j, o in enumerate(seq):
            if not step(rec, live, OPS[o]):
                good = False
                break
            hist.append(OPS[o])
            rec.state((case["s"], repr([s for _, s in live]), tuple(hist[-2:])))
            # earlier prefixes are checked by the sequence that ends there with every suffix; check the last two steps
            if j >= len(seq) - 2 or j == 0:
                if not check(rec, live, hist, j % 2):
                    return
        rec.note("histories" if good else "histories-inapplicable")


def pair(mode, rec):
    """two models from the same constructors/parameter objects: operating on one never shows in the other"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, AnalyticScale, FixedScale
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise

    def build():
        if mode == "defaults":
            yield lambda: MuyGPS(Matern()), lambda: MuyGPS(Matern())
            yield lambda: MuyGPS(RBF()), lambda: MuyGPS(RBF())
            yield lambda: MuyGPS(Matern()), lambda: MuyGPS(RBF())
        elif mode == "params":
            ls, nu = ScalarParam(0.8, (0.1, 2.0)), ScalarParam(1.5)
            yield (lambda: MuyGPS(Matern(smoothness=nu, deformation=Isotropy(l2, ls)), noise=HomoscedasticNoise(1e-2))), \
                  (lambda: MuyGPS(Matern(smoothness=nu, deformation=Isotropy(l2, ls)), noise=HomoscedasticNoise(1e-2)))
        elif mode == "noise-default":
            yield (lambda: MuyGPS(RBF(deformation=Isotropy(F2, ScalarParam(0.8, (0.1, 2.0)))), scale=AnalyticScale())), \
                  (lambda: MuyGPS(RBF(deformation=Isotropy(F2, ScalarParam(0.8, (0.1, 2.0)))), scale=AnalyticScale()))
        else:
            yield (lambda: MuyGPS(RBF(deformation=Isotropy(F2, ScalarParam(0.8, (0.1, 2.0)))), noise=HomoscedasticNoise(1e-2))), \
                  (lambda: MuyGPS(RBF(deformation=Isotropy(F2, ScalarParam(0.8, (0.1, 2.0)))), noise=HomoscedasticNoise(1e-2)))
    for f1, f2 in build():
        def ops(m):
            train, bi, nn, y = D[0]
            cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
            return {"scale": lambda: m.optimize_scale(pr, A(y[nn])),
                    "set": lambda: m.kernel.set_params(length_scale=P(0.31)),
                    "setscale": lambda: m.scale._set(A(np.array(7.0)) if TORCH else 7.0),
                    "setnoise": lambda: m.noise._set_val(0.25)}
        base2 = observe(rec, f2(), D[1])
        for order in itertools.permutations(["scale", "set", "setscale", "setnoise"]):
            for late in (False, True):
                m1 = f1()
                m2 = None if late else f2()
                for o in order:
                    rec.call("pair." + o, ops(m1)[o])
                if late:
                    m2 = f2()
                rec.state((mode, order, late))
                o2 = observe(rec, m2, D[1])
                rec.trace()
                for k in base2:
                    if not same(o2[k], base2[k]):
                        rec.fail(f"sharing.{mode}.{k}", f"after {order} on another model: {o2[k]} instead of {base2[k]}")
                        return
        # comparison follows the current parameter values
        a, b = f1(), f1()
        if a == 3 or a == "model" or not a == a:
            rec.fail(f"equal.{mode}.other", "a model equals something else, or not itself"); return
        for o in ("scale", "set", "setscale", "setnoise"):
            rec.trace(); rec.state((mode, "equal", o))
            if not (a == b and b == a and (TORCH or copy.deepcopy(a) == b)):
                rec.fail(f"equal.{mode}.same", f"before {o}: models with the same parameters differ"); return
            rec.call("pair." + o, ops(a)[o])
            if o == "scale" and np.allclose(N(a.scale()), N(b.scale())):
                continue
            if a == b or b == a:
                rec.fail(f"equal.{mode}.different", f"after {o} on one of two equal models they still compare equal"); return
            rec.call("pair." + o, ops(b)[o])
