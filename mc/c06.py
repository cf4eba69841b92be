"""C06: optimizer contract. scipy/bayes_opt are replaced by scripted optimizers; every combination of answers (below, at and
above each bound, interior, unchanged) for every layout of free parameters is fed back, then short real runs."""
import contextlib, copy, io, itertools
import seams
import numpy as np
from ref import *
from ref import P
import c04

LB, UB = 0.2, 3.0
CUR = dict(length_scale=0.8, length_scale0=0.8, length_scale1=1.4, length_scale2=0.55, smoothness=1.1, noise=0.03)
BND = dict(length_scale=(0.21, 3.1), length_scale0=(0.2, 3.0), length_scale1=(0.35, 2.5), length_scale2=(0.05, 0.95), smoothness=(0.4, 2.2), noise=(0.001, 0.3))
KIND = ["below", "far-below", "lower", "interior", "same", "upper", "above", "far-above"]


def layouts():
    out = []
    for ker in ("rbf", "matern"):
        for d in ("iso", "aniso2", "aniso3", "diso"):
            ns = ["length_scale"] if d in ("iso", "diso") else [f"length_scale{i}" for i in range(int(d[-1]))]
            allp = ns + (["smoothness"] if ker == "matern" else []) + ["noise"]
            for r in range(1, len(allp) + 1):
                for free in itertools.combinations(allp, r):
                    out.append(dict(ker=ker, d=d, free=list(free), names=ns))
    return out


def spec_of(l, scale="analytic"):
    fr = l["free"]
    s = dict(kernel=l["ker"], nu=CUR["smoothness"], nub=list(BND["smoothness"]) if "smoothness" in fr else "fixed",
             noise=dict(t="homo", v=CUR["noise"], b=list(BND["noise"]) if "noise" in fr else "fixed"), scale=dict(t=scale, val=1.7))
    if l["d"] in ("iso", "diso"):
        s.update(ls=CUR["length_scale"], lsb=list(BND["length_scale"]) if "length_scale" in fr else "fixed")
        s["def"] = l["d"]
    else:
        s.update(ls=[CUR[n] for n in l["names"]], lsb=[list(BND[n]) if n in fr else "fixed" for n in l["names"]])
        s["def"] = "aniso"
    if l["ker"] == "matern" and "smoothness" not in fr:
        s["nu"] = 1.5
    return s


def cases(tier, env):
    out = []
    for i, l in enumerate(layouts()):
        out.append(dict(k="answers", l=l, opt="scipy", full=tier == "thorough"))
        out.append(dict(k="answers", l=l, opt="bayes", full=tier == "thorough"))
        if i % 3 == 0 or tier == "thorough":
            out.append(dict(k="real", l=l))
    out.append(dict(k="options"))
    for f in (10, 11, 12, 13):
        out.append(dict(k="big", f=f, opt="scipy")); out.append(dict(k="big", f=f, opt="bayes"))
    return out


def ans(name, kind, cur):
    lo, hi = BND.get(name, (0.1, 5.0))
    if kind[0] in "-+" and kind[1:]:
        return lo + 10.0 ** -int(kind[1:]) * (hi - lo) if kind[0] == "-" else hi - 10.0 ** -int(kind[1:]) * (hi - lo)
    return {"below": lo - 1e-3, "far-below": -10.0, "lower": lo, "interior": lo + 0.37 * (hi - lo), "same": cur, "upper": hi, "above": hi + 1e-3, "far-above": 100.0}[kind]


class FakeBO:
    def __init__(self, log, answer):
        self.log, self.answer = log, answer

    def __call__(self, f=None, pbounds=None, *a, **k):
        self.log.update(f=f, pbounds={n: tuple(float(x) for x in b) for n, b in pbounds.items()}, ctor=k, ctor_args=a, probes=[], maximize=[])
        outer = self

        class Inst:
            def probe(self, params, lazy=True):
                if not isinstance(params, dict):
                    params = dict(zip(sorted(pbounds), params))
                outer.log["probes"].append({n: float(v) for n, v in params.items()})

            def maximize(self, *a, **k):
                outer.log["maximize"].append((a, k))

            def set_gp_params(self, **k):
                pass

            def __getattr__(self, n):
                if n == "max":
                    return dict(target=0.0, params=dict(outer.answer(sorted(pbounds))))
                raise AttributeError(n)
        return Inst()


def data(f):
    train = pts(20, f)
    bi = np.array([2, 9, 4, 13, 17])
    nn = nbrs(train, train[bi], 4, skip=bi)
    y = vals(20, 1)[:, 0]
    return train, bi, nn, y


def put(st, name, v):
    c04.put(st, name, v)


def val_of(st, n):
    return st["noise"]["v"] if n == "noise" else st["nu"] if n == "smoothness" else st["ls"] if n == "length_scale" else st["ls"][int(n[12:])]


def expect_model(rec, sig, m, st, d, names, free, bounds, sval):
    train, bi, nn, y = d
    rec.trace()
    for n in names:
        p = m.noise if n == "noise" else m.kernel._hyperparameters[n]
        v = float(N(p()))
        if abs(v - val_of(st, n)) > 1e-9 * max(1, abs(v)):
            rec.fail(f"{sig}.{'free' if n in free else 'fixed'}-value", f"{n} is {v}, expected {val_of(st, n)}")
        if p.fixed() is not (n not in free):
            rec.fail(f"{sig}.fixedness", n)
        if n in free and tuple(float(x) for x in p.get_bounds()) != tuple(float(x) for x in bounds[n]):
            rec.fail(f"{sig}.bounds", f"{n}: {p.get_bounds()} instead of {bounds[n]}")
    if abs(float(N(m.scale())) - sval) > 1e-9:
        rec.fail(f"{sig}.scale", f"{m.scale()} instead of {sval}")
    cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
    Kin, Kc = m.kernel(pr), m.kernel(cr)
    rK, rC = ref_k(st, pair_diffs(train, nn)), ref_k(st, cross_diffs(train[bi], train, nn))
    mu, v = ref_post(st, rK, rC, y[nn], st["noise"], sval)
    for a, b, w in ((Kin, rK, "kernel"), (m.posterior_mean(Kin, Kc, nt), mu[:, 0], "mean"), (m.posterior_variance(Kin, Kc), v, "variance")):
        if not close(a, b, rtol=1e-6, atol=1e-7):
            rec.fail(f"{sig}.{w}", diffmsg(a, b))
    rec.outcome(repr([round(val_of(st, n), 6) for n in names]))


TURN = [0]


def run_opt(rec, m, opt, d, answer, log, **kw):
    from MuyGPyS.optimize import Bayes_optimize, L_BFGS_B_optimize
    train, bi, nn, y = d
    cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
    # every third optimization reports on itself, which changes nothing else
    TURN[0] += 1
    if TURN[0] % 3 == 1 and "verbose" not in kw:
        with contextlib.redirect_stdout(io.StringIO()):
            return run_opt(rec, m, opt, d, answer, log, verbose=True, **kw)
    if opt == "scipy":
        def fake(fun, x0, *a, **k):
            from scipy.optimize import OptimizeResult
            x0 = np.array(x0, float)
            log.update(fun=fun, x0=x0, kw=k, args=a)
            x = np.array(answer(x0), float)
            return OptimizeResult(x=x, fun=0.0, success=False, status=1, message="scripted", nit=0, nfev=0)
        with seams.fake_minimize(fake):
            return rec.call("optimize", L_BFGS_B_optimize, m, bt, nt, cr, pr, **kw), (cr, pr, bt, nt)
    with seams.fake_bayes(FakeBO(log, answer)):
        return rec.call("optimize", Bayes_optimize, m, bt, nt, cr, pr, **kw), (cr, pr, bt, nt)


def ref_lool_at(st, d):
    train, bi, nn, y = d
    rK, rC = ref_k(st, pair_diffs(train, nn)), ref_k(st, cross_diffs(train[bi], train, nn))
    mu, v = ref_post(st, rK, rC, y[nn], st["noise"])
    return -ref_lool(mu[:, 0], y[bi], v, ref_scale(rK, y[nn], st["noise"]))


def run(case, rec):
    TURN[0] = 0
    if case["k"] == "options":
        return options(rec)
    if case["k"] == "big":
        return big(rec, case["f"], case["opt"])
    l = case["l"]
    st0 = spec_of(l)
    f = 2 if l["d"] in ("iso", "diso") else int(l["d"][-1])
    d = data(f)
    names = l["names"] + (["smoothness"] if l["ker"] == "matern" else []) + ["noise"]
    free = [n for n in names if n in l["free"]]
    if case["k"] == "real":
        return real(rec, l, st0, d, names, free)
    kinds = KIND if len(free) <= 2 else (["below", "interior", "above"] if not case["full"] else ["below", "lower", "interior", "same", "above"])
    if len(free) > 3:
        kinds = ["below", "above"] if not case["full"] else ["below", "interior", "above"]
    m0 = rec.call("construct", mk_model, st0)
    cur = {n: val_of(st0, n) for n in free}
    first = True
    combos = list(itertools.product(kinds, repeat=len(free)))
    # answers a hair inside a bound (optimizers converge there) are taken as they are
    for i, nk in itertools.product(range(len(free)), ("-2", "-4", "-6", "+2", "+4", "+6")):
        combos.append(tuple(nk if j == i else "interior" for j in range(len(free))))
    for combo in combos:
        a = {n: ans(n, kd, cur[n]) for n, kd in zip(free, combo)}
        log = {}
        if case["opt"] == "scipy":
            order = []

            def answer(x0):
                order.clear()
                for x in x0:
                    order.append(min(cur, key=lambda n: abs(cur[n] - x)))
                return [a[n] for n in order]
        else:
            def answer(ns):
                return {n: a[n] for n in ns}
        m, tens = run_opt(rec, m0, case["opt"], d, answer, log)
        rec.state((json.dumps(l), case["opt"], combo))
        st = copy.deepcopy(st0)
        for n in free:
            put(st, n, min(max(a[n], BND[n][0]), BND[n][1]))
        bad0 = len(rec.fails)
        expect_model(rec, "result", m, st, d, names, free, BND, 1.7)
        if m is m0:
            rec.fail("result.is-input")
        if first or combo[0] in ("below", "interior"):
            expect_model(rec, "input", m0, st0, d, names, free, BND, 1.7)
        if first:
            first = False
            protocol(rec, case, l, st0, d, free, cur, log, order if case["opt"] == "scipy" else None)
        if len(rec.fails) > bad0:
            rec.fail("answers.at", f"{case['opt']} answered {a}")
            return


def protocol(rec, case, l, st0, d, free, cur, log, order):
    """what reached the optimizer"""
    rec.trace()
    if case["opt"] == "scipy":
        if "x0" not in log:
            return
        if sorted(order) != sorted(free) or not np.allclose(log["x0"], [cur[n] for n in order], rtol=1e-9):
            rec.fail("protocol.x0", f"{log['x0']} for {cur}")
            return
        b = log["kw"].get("bounds")
        if b is not None:
            if hasattr(b, "lb"):
                b = list(zip(b.lb, b.ub))
            if not np.allclose(np.array(b, float), np.array([BND[n] for n in order], float), rtol=1e-9):
                rec.fail("protocol.bounds", f"{b} for {order}")
        else:
            rec.fail("protocol.bounds", "no bounds")
        if str(log["kw"].get("method", "L-BFGS-B")).upper() != "L-BFGS-B":
            rec.fail("protocol.method", str(log["kw"].get("method")))
        points = [cur] + [{n: BND[n][0] + t * (BND[n][1] - BND[n][0]) for i, n in enumerate(free)} for t in (0.0, 0.3, 1.0)] + \
                 [{n: BND[n][0] + (0.2 + 0.15 * i) * (BND[n][1] - BND[n][0]) for i, n in enumerate(free)}]
        for p in points:
            st = copy.deepcopy(st0)
            for n in free:
                put(st, n, p[n])
            got = float(rec.call("objective", log["fun"], np.array([p[n] for n in order])))
            w = -ref_lool_at(st, d)
            rec.trace()
            if abs(got - w) > 1e-5 * max(1, abs(w)):
                rec.fail("protocol.negated-objective", f"{got} instead of {w} at {p}")
                return
    else:
        if "pbounds" not in log:
            return
        if set(log["pbounds"]) != set(free) or any(not np.allclose(log["pbounds"][n], BND[n], rtol=1e-9) for n in free):
            rec.fail("protocol.pbounds", str(log["pbounds"]))
            return
        if not any(all(abs(p[n] - cur[n]) < 1e-9 for n in free) for p in log["probes"]):
            rec.fail("protocol.start", f"the current point {cur} is not probed: {log['probes']}")
        for t in (0.0, 0.3, 1.0):
            p = {n: BND[n][0] + t * (BND[n][1] - BND[n][0]) for n in free}
            st = copy.deepcopy(st0)
            for n in free:
                put(st, n, p[n])
            w = ref_lool_at(st, d)
            for q in (p, dict(reversed(list(p.items())))):
                got = float(N(rec.call("objective", log["f"], **q)))
                rec.trace()
                if abs(got - w) > 1e-5 * max(1, abs(w)):
                    rec.fail("protocol.objective", f"{got} instead of {w} at {p}")
                    return


def options(rec):
    l = dict(ker="matern", d="iso", free=["length_scale", "smoothness"], names=["length_scale"])
    st0 = spec_of(l)
    d = data(2)
    cur = {"length_scale": 0.8, "smoothness": 1.1}
    m0 = mk_model(st0)
    for kw in ({}, dict(options={"maxiter": 3}), dict(tol=1e-3), dict(options={"ftol": 1e-4, "maxfun": 7}, tol=1e-5)):
        log = {}
        run_opt(rec, m0, "scipy", d, lambda x0: x0, log, **kw)
        rec.state(("scipy", repr(kw))); rec.trace()
        for k_, v in kw.items():
            if log["kw"].get(k_) != v:
                rec.fail("options.scipy", f"{k_} reached the optimizer as {log['kw'].get(k_)}")
    for init, it, rs, ver in itertools.product((None, 0, 1, 7), (None, 0, 3), (None, 5), (None, True)):
        kw = {k_: v for k_, v in dict(init_points=init, n_iter=it, random_state=rs).items() if v is not None}
        if ver:
            kw["verbose"] = True
        for extra in ({}, dict(allow_duplicate_points=False)):
            log = {}
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                run_opt(rec, m0, "bayes", d, lambda ns: {n: cur[n] for n in ns}, log, **kw, **extra)
            rec.state(("bayes", repr(kw), repr(extra))); rec.trace()
            mk = dict(log["maximize"][0][1]); pos = log["maximize"][0][0]
            for i, v in enumerate(pos):
                mk[["init_points", "n_iter"][i]] = v
            if len(log["maximize"]) != 1 or mk.get("init_points") != (5 if init is None else init) or mk.get("n_iter") != (20 if it is None else it):
                rec.fail("options.maximize", f"{log['maximize']} for {kw}")
            if log["ctor"].get("random_state") != rs:
                rec.fail("options.random_state", f"{log['ctor']} for {kw}")
            if log["ctor"].get("allow_duplicate_points") is not extra.get("allow_duplicate_points", True):
                rec.fail("options.duplicates", f"{log['ctor']}")


def big(rec, f, opt):
    """many length scales: names sort differently from their numbers"""
    lo, hi = 0.1, 5.0
    ls = [0.5 + 0.05 * ((7 * i) % f) + 0.001 * i for i in range(f)]
    st0 = dict(kernel="rbf", ls=ls, lsb=[[lo, hi]] * f, noise=dict(t="homo", v=0.03), scale=dict(t="fixed", val=1.7), **{"def": "aniso"})
    d = data(f)
    m0 = mk_model(st0)
    names = [f"length_scale{i}" for i in range(f)]
    bounds = {n: (lo, hi) for n in names}
    for which in range(3):
        a = {n: [0.6 + 0.1 * i, 7.0 if i % 2 else -1.0, 3.0 - 0.1 * i][which] for i, n in enumerate(names)}
        log = {}

        def answer(x0):
            if opt == "bayes":
                return {n: a[n] for n in x0}
            return [a[names[int(np.argmin([abs(v - x) for v in ls]))]] for x in x0]
        m, _ = run_opt(rec, m0, opt, d, answer, log)
        st = copy.deepcopy(st0)
        for n in names:
            put(st, n, min(max(a[n], lo), hi))
        rec.state((f, opt, which))
        expect_model(rec, "big", m, st, d, names, names, bounds, 1.7)


def real(rec, l, st0, d, names, free):
    """the real optimizers: legal answer, never worse than the start, input untouched"""
    from MuyGPyS.optimize import Bayes_optimize, L_BFGS_B_optimize
    for opt, kw in ((L_BFGS_B_optimize, {}), (Bayes_optimize, dict(init_points=2, n_iter=2, random_state=3))):
        m0 = mk_model(st0)
        train, bi, nn, y = d
        cr, pr, bt, nt = m0.make_train_tensors(I(bi), I(nn), A(train), A(y))
        m = rec.call("real", opt, m0, bt, nt, cr, pr, **kw)
        st = copy.deepcopy(st0)
        for n in free:
            p = m.noise if n == "noise" else m.kernel._hyperparameters[n]
            v = float(N(p()))
            if not (BND[n][0] <= v <= BND[n][1]):
                rec.fail("real.out-of-bounds", f"{n}={v}")
            put(st, n, v)
        rec.state((json.dumps(l), opt is Bayes_optimize))
        expect_model(rec, "real.result", m, st, d, names, free, BND, 1.7)
        expect_model(rec, "real.input", m0, st0, d, names, free, BND, 1.7)
        a, b = ref_lool_at(st, d), ref_lool_at(st0, d)
        rec.trace()
        if a < b - 1e-6 * max(1, abs(b)):
            rec.fail("real.worse-than-start", f"objective {a} after, {b} before ({free})")
