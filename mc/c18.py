"""C18: the regression workflows. The optimizer and the random source are scripted; every combination of answers and every batch
draw is fed to the one-call workflows, whose model, index and predictions must be those of the documented steps computed by the
reference; then queries in every order and every single-target perturbation."""
import copy, contextlib, io, itertools
import seams
import numpy as np
from ref import *
import c04, c06, c07

LB = {"length_scale": [0.2, 3.1], "length_scale0": [0.2, 3.0], "length_scale1": [0.35, 2.5], "smoothness": [0.4, 2.2], "noise": [0.001, 0.3]}
AN, DN, FX = dict(t="analytic"), dict(t="down", down_count=2, iteration_count=3), dict(t="fixed", val=2.5)
UNI = [
    dict(kernel="rbf", ls=0.8, lsb=LB["length_scale"], noise=dict(t="homo", v=0.03), scale=AN),
    dict(kernel="matern", nu=1.5, ls=0.8, lsb=LB["length_scale"], noise=dict(t="homo", v=0.03, b=LB["noise"]), scale=dict(t="analytic", iteration_count=3)),
    dict(kernel="matern", nu=1.1, nub=LB["smoothness"], ls=0.8, noise=dict(t="homo", v=0.03), scale=FX),
    dict(kernel="rbf", ls=[0.8, 1.4], lsb=[LB["length_scale0"], LB["length_scale1"]], noise=dict(t="homo", v=0.03), scale=AN, **{"def": "aniso"}),
    dict(kernel="matern", nu=2.5, ls=[0.8, 1.4], lsb=["fixed", LB["length_scale1"]], noise=dict(t="homo", v=0.03, b=LB["noise"]), scale=DN, **{"def": "aniso"}),
    dict(kernel="rbf", ls=0.8, lsb=LB["length_scale"], noise=dict(t="homo", v=0.03), scale=FX, **{"def": "diso"}),
    dict(kernel="matern", nu=0.5, ls=0.8, lsb="fixed", noise=dict(t="homo", v=0.03, b=LB["noise"]), scale=dict(t="analytic", val=4.0)),
]
FIXED = [
    dict(kernel="rbf", ls=0.8, noise=dict(t="homo", v=0.03), scale=FX),
    dict(kernel="matern", nu=1.5, ls=0.6, noise=dict(t="homo", v=0.01), scale=dict(t="fixed")),
    dict(kernel="rbf", ls=[0.8, 1.4], noise=dict(t="homo", v=0.05), scale=FX, **{"def": "aniso"}),
    dict(kernel="matern", nu=2.5, ls=0.9, noise=dict(t="homo", v=0.02), scale=dict(t="analytic", val=3.0)),
    dict(kernel="rbf", ls=0.9, noise=dict(t="homo", v=0.02), scale=dict(t="down", val=0.5, down_count=2, iteration_count=2)),
]
M2 = dict(UNI[1]); M2f = FIXED[1]
MULTI = [[UNI[1], dict(UNI[6])], [UNI[6], FIXED[1], dict(UNI[2], nu=1.3)], [FIXED[1], UNI[1]], [dict(UNI[1]), FIXED[3], UNI[6]],
         [UNI[0], dict(UNI[0], ls=1.3, scale=FX)], [FIXED[0], UNI[0], dict(UNI[0], noise=dict(t="homo", v=0.07, b=LB["noise"]), scale=DN)], [UNI[0]],
         [UNI[3], FIXED[2]], [FIXED[2], UNI[3]]]
MFIX = [[FIXED[1], FIXED[1]], [FIXED[1], FIXED[3]], [FIXED[0], dict(FIXED[0], ls=1.2), FIXED[4]], [FIXED[0]]]
KINDS = ["below", "interior", "same", "above"]


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for i in range(len(UNI)):
        for opt in ("scipy", "bayes"):
            for loss in ("lool", "mse", "looph", "ph"):
                for shape in ([0, 1] if UNI[i]["scale"]["t"] != "fixed" else [0, 1, 2, 3]):
                    out.append(dict(k="uni", m=i, opt=opt, loss=loss, r=shape, n=14, kk=3, bc=5, t=4, full=th or (loss == "lool" and shape == 1)))
        if UNI[i].get("def") != "aniso":
            out += [dict(k="uni", m=i, opt="scipy", loss="lool", r=1, n=20, kk=3, bc=6, t=5, f=f, full=False) for f in (1, 3, 4, 5, 10, 40)]
        out.append(dict(k="draws", m=i, n=6, kk=3, bc=3))
        for n, kk, bc, t in [(9, 8, 9, 1), (9, 3, 20, 9), (14, 1, 1, 3), (30, 5, 10, 17), (14, 3, 13, 14), (40, 10, 33, 3), (70, 30, 64, 65), (130, 4, 128, 129)]:
            if UNI[i]["scale"]["t"] == "down" and kk < 3:
                continue
            out.append(dict(k="uni", m=i, opt="scipy", loss="lool", r=1, n=n, kk=kk, bc=bc, t=t, full=False))
    for i in range(len(MULTI)):
        for opt in ("scipy", "bayes"):
            for loss in ("lool", "mse", "looph", "ph"):
                out.append(dict(k="multi", m=i, opt=opt, loss=loss, n=14, kk=3, bc=5, t=4, full=th or loss == "lool"))
        for n, kk, bc, t in [(9, 3, 20, 9), (30, 5, 10, 17), (14, 3, 13, 14), (14, 5, 5, 3)]:
            out.append(dict(k="multi", m=i, opt="scipy", loss="lool", n=n, kk=kk, bc=bc, t=t, full=False))
    for i in range(len(FIXED)):
        out.append(dict(k="fixed", m=i))
    for i in range(len(MFIX)):
        out.append(dict(k="mfixed", m=i))
    for i in range(len(UNI)):
        out.append(dict(k="indices", m=i))
    out.append(dict(k="reject"))
    for nn in range(8):
        out.append(dict(k="index", nn=nn))
    out.append(dict(k="repeat"))
    out += with_layouts([dict(k="uni", m=i, opt="scipy", loss="lool", r=1, n=14, kk=3, bc=5, t=4, full=False) for i in (0, 3)] + [dict(k="fixed", m=0), dict(k="mfixed", m=1), dict(k="indices", m=1)])
    return out


# ------------------------------------------------------------------ scripted optimizer shared by both libraries
class Script:
    """answers[i] is the list of answers (name -> value) of the i-th optimizer call; cur[i] the parameter values it starts from"""

    def __init__(self, cur, answers):
        self.cur, self.answers, self.log = cur, answers, []

    @contextlib.contextmanager
    def on(self, opt):
        from scipy.optimize import OptimizeResult

        def fmin(fun, x0, *a, **k):
            i = len(self.log)
            cur = self.cur[min(i, len(self.cur) - 1)]
            x0 = np.array(x0, float)
            order = [min(cur, key=lambda n: abs(cur[n] - x)) for x in x0]
            self.log.append(("scipy", order, x0, lambda p: -float(np.ravel(N(fun(np.array([p[n] for n in order]))))[0]), k))
            self.probe(i)
            ans = self.answers[min(i, len(self.answers) - 1)]
            return OptimizeResult(x=np.array([ans[n] for n in order]), fun=0.0, success=False, status=1, message="scripted", nit=0, nfev=0)

        def fbo(f=None, pbounds=None, *a, **k):
            i = len(self.log)
            lg = {}
            ans = self.answers[min(i, len(self.answers) - 1)]
            bo = c06.FakeBO(lg, lambda ns: {n: ans[n] for n in ns})(f=f, pbounds=pbounds, *a, **k)
            self.log.append(("bayes", sorted(pbounds), lg, lambda p: float(np.ravel(N(f(**p)))[0]), k))
            self.probe(i)
            return bo
        with seams.fake_minimize(fmin), seams.fake_bayes(fbo):
            yield self

    def probe(self, i):
        pass


def opt_of(name):
    from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
    return {"scipy": L_BFGS_B_optimize, "bayes": Bayes_optimize}[name]


def pick_of(n, bc, script):
    """batch draws follow the script, down sampling takes a fixed pattern"""
    def pick(pool, m, i):
        if pool == n and m == bc:
            return script
        return list(range(m))
    return pick


def hint_of(n, bc, *sts):
    """how many elements of a permuted pool are taken: the batch, or the down-sampled neighborhood"""
    d = [s["scale"]["down_count"] for s in sts if s["scale"].get("down_count")]
    return lambda pool: bc if pool == n else (d[0] if d else pool)


def rscale(st, Kin, ynn):
    sc = st["scale"]
    if sc["t"] == "fixed":
        return sc.get("val", 1.0)
    if sc["t"] == "analytic":
        return ref_scale(Kin, ynn, st["noise"], sc.get("iteration_count", 1))
    s = list(range(sc["down_count"]))
    nd = noise_diag(st["noise"], *Kin.shape[:2])
    P_ = Kin + nd[:, :, None] * np.eye(Kin.shape[1])
    return ref_scale(P_[:, s][:, :, s], ynn[:, s], dict(t="null"))


class World:
    """a data set with its reference neighbors"""

    def __init__(self, n, f, kk, t, r, salt=0.0):
        self.n, self.kk = n, kk
        # a rotation is a lattice: bend it so that no two distances tie
        bend = lambda m, s: 0.2 * np.sin(1.7 * np.arange(m)[:, None] ** 2 + np.arange(f)[None, :] + s)  # noqa
        self.X = pts(n, f, salt) + bend(n, 0)
        self.T = pts(t, f, 0.37 + salt) + bend(t, 1)
        self.Y = vals(n, r, salt) if r else vals(n, 1, salt)[:, 0]
        self.own = nbrs(self.X, self.X, kk, skip=np.arange(n))
        self.tn = nbrs(self.X, self.T, kk)

    def post(self, st, sval, Y):
        mu, v = ref_post(st, ref_k(st, pair_diffs(self.X, self.tn)), ref_k(st, cross_diffs(self.T, self.X, self.tn)), Y[self.tn], st["noise"], sval)
        return mu, v

    def train(self, st, b, Y):
        nn = self.own[b]
        return ref_k(st, pair_diffs(self.X, nn)), ref_k(st, cross_diffs(self.X[b], self.X, nn)), Y[nn], Y[b]

    def loss(self, name, st, b, Y):
        Kin, Kc, yn, y = self.train(st, b, Y)
        mu, v = ref_post(st, Kin, Kc, yn, st["noise"])
        s = rscale(st, Kin, yn) if name in ("lool", "looph") else 1.0
        return -c07.rloss(name, mu.reshape(y.shape), y, v, s, {})

    def scale(self, st, b, Y):
        Kin, _, yn, _ = self.train(st, b, Y)
        return rscale(st, Kin, yn)


def vals_of(st):
    return {n: c06.val_of(st, n) for n, _ in c04.free_names(st)}


def answer_of(st, kinds):
    out = {}
    for (n, (lo, hi)), kd in zip(c04.free_names(st), kinds):
        out[n] = {"below": lo - 0.01, "interior": lo + 0.37 * (hi - lo), "same": c06.val_of(st, n), "above": hi + 1.0}[kd]
    return out


def answered(st, a):
    st = copy.deepcopy(st)
    for n, (lo, hi) in c04.free_names(st):
        c04.put(st, n, min(max(a[n], lo), hi))
    return st


def start_sval(st):
    return float(st["scale"].get("val", 1.0))


def check_model(rec, sig, m, st, sval, where):
    rec.trace()
    for n in vals_of(st) if c04.free_names(st) else []:
        p = m.noise if n == "noise" else m.kernel._hyperparameters[n]
        if abs(float(N(p())) - c06.val_of(st, n)) > 1e-9:
            rec.fail(f"{sig}.parameter", f"{n} is {p()}, expected {c06.val_of(st, n)}; {where}")
    g = float(np.ravel(N(m.scale()))[0])
    if abs(g - sval) > 1e-6 * max(1.0, abs(sval)):
        rec.fail(f"{sig}.scale", f"{g} instead of {sval}; {where}")


def probe_points(st):
    fr = c04.free_names(st)
    return [{n: lo + (t + 0.1 * i) * (hi - lo) for i, (n, (lo, hi)) in enumerate(fr)} for t in (0.05, 0.5)]


def check_objective(rec, sig, sc, i, st0, w, loss, b, Y):
    """the function the optimizer was given, at two points"""
    if len(sc.log) <= i:
        rec.fail(f"{sig}.not-optimized", f"{len(sc.log)} optimizer calls")
        return
    lib, order, _, fun, _ = sc.log[i]
    names = [n for n, _ in c04.free_names(st0)]
    if sorted(order) != sorted(names):
        rec.fail(f"{sig}.names", f"{order} instead of {names}")
        return
    for p in probe_points(st0):
        st = copy.deepcopy(st0)
        for n, v in p.items():
            c04.put(st, n, v)
        with seams.Draws(lambda n, m, i: list(range(m))):
            got = rec.call(f"{sig}.objective", fun, p)
        want = w.loss(loss, st, b, Y)
        rec.trace()
        if abs(got - want) > 1e-5 * max(1, abs(want)):
            rec.fail(f"{sig}.objective", f"{got} instead of {want} at {p}")
            return


def check_index(rec, sig, nn, w):
    i, d = rec.call("lookup.get_nns", nn.get_nns, A(w.T))
    rec.trace()
    if not np.array_equal(np.sort(N(i), 1), np.sort(w.tn, 1)):
        rec.fail(f"{sig}.index", f"{N(i).tolist()} instead of {w.tn.tolist()}")
    i, d = rec.call("lookup.get_batch_nns", nn.get_batch_nns, I(range(w.n)))
    if not np.array_equal(np.sort(N(i), 1), np.sort(w.own, 1)):
        rec.fail(f"{sig}.batch-index", f"{N(i).tolist()} instead of {w.own.tolist()}")


def close6(a, b):
    return close(a, b, rtol=1e-5, atol=1e-7)


def kw_of(spec):
    return mk_args(spec)




def run(case, rec):
    from MuyGPyS.examples import regress as R
    return globals()["run_" + case["k"]](case, rec, R)


def run_uni(case, rec, R):
    st0 = UNI[case["m"]]
    n, kk, bc, t, loss = (case[x] for x in ("n", "kk", "bc", "t", "loss"))
    w = World(n, case.get("f", 2), kk, t, case["r"])
    free = c04.free_names(st0)
    kinds = list(itertools.product(KINDS if case["full"] else ["interior", "above"], repeat=len(free)))
    kinds += [tuple("interior" for _ in free)] if not case["full"] else []
    script = [(3 * j + 1) % n for j in range(min(bc, n))] if np.gcd(3, n) == 1 else list(range(min(bc, n)))[::-1]
    for j, kd in enumerate(kinds):
        a = answer_of(st0, kd)
        st = answered(st0, a)
        for entry in ("do", "make") if j < 2 else ("do",):
            sc = Script([vals_of(st0)], [a])
            kw = dict(nn_count=kk, batch_count=bc, loss_fn=c07.loss_obj(loss), opt_fn=opt_of(case["opt"]), k_kwargs=kw_of(st0), nn_kwargs=dict(n_jobs=1))
            if j == 1:
                kw["verbose"] = True
            if loss == "lool" and j % 2:
                del kw["loss_fn"]        # the default
            X, Y, T = A(w.X), A(w.Y), A(w.T)
            with seams.Draws(pick_of(n, bc, script), hint_of(n, bc, st0)) as dr, sc.on(case["opt"]), contextlib.redirect_stdout(io.StringIO()):
                if entry == "do":
                    m, nn, mu, v = rec.call("do_regress", R.do_regress, T, X, Y, **kw)
                else:
                    m, nn = rec.call("make_regressor", R.make_regressor, X, Y, **kw)
            b = np.arange(n) if bc >= n else batch_drawn(rec, dr, n, bc)
            if b is None:
                return
            where = f"{entry} answers {a} batch {b.tolist()}"
            rec.state((json.dumps(case), kd, entry))
            if len(sc.log) != 1:
                rec.fail("do_regress.optimizer-calls", f"{len(sc.log)}")
                return
            sval = w.scale(st, b, w.Y)
            check_model(rec, f"{entry}.uni", m, st, sval, where)
            if j < 2:
                check_objective(rec, f"{entry}.uni", sc, 0, st0, w, loss, b, w.Y)
                check_index(rec, f"{entry}.uni", nn, w)
            wm, wv = w.post(st, sval, w.Y)
            wm = wm.reshape((t,) + w.Y.shape[1:])
            if entry == "make":
                mu, v, _ = rec.call("regress_any", R.regress_any, m, T, X, nn, Y)
            rec.trace(2)
            if not close6(mu, wm):
                rec.fail("uni.mean", f"{where}: {diffmsg(mu, wm)}"); return
            if not close6(v, wv):
                rec.fail("uni.variance", f"{where}: {diffmsg(v, wv)}"); return
            rec.outcome((kd, case["m"]))


def batch_drawn(rec, dr, n, bc):
    for (pool, m, rep), got in zip(dr.calls, dr.picked):
        if len(pool) == n and m == bc and not rep:
            return np.asarray(got)
    rec.fail("batch", f"no draw of {bc} of {n} points: {[(len(p), m) for p, m, _ in dr.calls]}")
    return None


def run_draws(case, rec, R):
    """every batch the random source can answer"""
    st0 = UNI[case["m"]]
    n, kk, bc = case["n"], case["kk"], case["bc"]
    w = World(n, 2, kk, 3, 1)
    a = answer_of(st0, ["interior"] * 4)
    st = answered(st0, a)
    alts = list(itertools.permutations(range(n), bc))
    for bt in alts:
        sc = Script([vals_of(st0)], [a])
        with seams.Draws(pick_of(n, bc, list(bt)), hint_of(n, bc, st0)) as dr, sc.on("scipy"):
            m, nn, mu, v = rec.call("do_regress", R.do_regress, A(w.T), A(w.X), A(w.Y), nn_count=kk, batch_count=bc, opt_fn=opt_of("scipy"), k_kwargs=kw_of(st0), nn_kwargs=dict(n_jobs=1))
        rec.state((case["m"], bt))
        b = np.array(bt)
        sval = w.scale(st, b, w.Y)
        check_model(rec, "draws", m, st, sval, f"batch {bt}")
        wm, wv = w.post(st, sval, w.Y)
        rec.trace(2)
        if not (close6(mu, wm) and close6(v, wv)):
            rec.fail("draws.prediction", f"batch {bt}: {diffmsg(mu, wm)}; {diffmsg(v, wv)}"); return


def run_multi(case, rec, R):
    sts = MULTI[case["m"]]
    n, kk, bc, t, loss = (case[x] for x in ("n", "kk", "bc", "t", "loss"))
    r = len(sts)
    w = World(n, 2, kk, t, r)
    freed = [i for i in range(r) if c04.free_names(sts[i])]
    script = [(3 * j + 1) % n for j in range(min(bc, n))] if np.gcd(3, n) == 1 else list(range(min(bc, n)))[::-1]
    per = []
    for i in freed:
        nf = len(c04.free_names(sts[i]))
        per.append([("interior",) * nf, ("above",) * nf, ("below",) * nf] if case["full"] and len(freed) * nf <= 4 else [("interior",) * nf, ("above",) + ("interior",) * (nf - 1)])
    for j, combo in enumerate(itertools.product(*per)):
        ans = [answer_of(sts[i], kd) for i, kd in zip(freed, combo)]
        new = list(sts)
        for i, a in zip(freed, ans):
            new[i] = answered(sts[i], a)
        for entry in ("list", "tuple", "make") if j == 0 else ("list",):
            sc = Script([vals_of(sts[i]) for i in freed], ans)
            args = [kw_of(s) for s in sts]
            args = tuple(args) if entry == "tuple" else args
            kw = dict(nn_count=kk, batch_count=bc, loss_fn=c07.loss_obj(loss), opt_fn=opt_of(case["opt"]), nn_kwargs=dict(n_jobs=1))
            X, Y, T = A(w.X), A(w.Y), A(w.T)
            with seams.Draws(pick_of(n, bc, script), hint_of(n, bc, *sts)) as dr, sc.on(case["opt"]):
                if entry == "make":
                    m, nn = rec.call("make_multivariate_regressor", R.make_multivariate_regressor, X, Y, k_args=args, **kw)
                else:
                    m, nn, mu, v = rec.call("do_regress", R.do_regress, T, X, Y, k_kwargs=args, **kw)
            b = np.arange(n) if bc >= n else batch_drawn(rec, dr, n, bc)
            if b is None:
                return
            rec.state((json.dumps(case), combo, entry))
            where = f"{entry} answers {ans}"
            if len(sc.log) != len(freed):
                rec.fail("multi.optimizer-calls", f"{len(sc.log)} for {len(freed)} trainable models"); return
            if j < 2:
                for c, i in enumerate(freed):
                    check_objective(rec, "multi", sc, c, sts[i], w, loss, b, w.Y[:, i])
                check_index(rec, "multi", nn, w)
            svals = [w.scale(new[i], b, w.Y[:, i]) for i in range(r)]
            for i in range(r):
                check_model(rec, "multi", m.models[i], new[i], svals[i], f"{where} model {i}")
            pm = [w.post(new[i], svals[i], w.Y[:, i]) for i in range(r)]
            wm, wv = np.stack([p[0][:, 0] for p in pm], 1), np.stack([p[1] for p in pm], 1)
            if entry == "make":
                mu, v, _ = rec.call("regress_any", R.regress_any, m, T, X, nn, Y)
            rec.trace(2)
            if not close6(mu, wm):
                rec.fail("multi.mean", f"{where}: {diffmsg(mu, wm)}"); return
            if not close6(v, wv):
                rec.fail("multi.variance", f"{where}: {diffmsg(v, wv)}"); return
            rec.outcome((combo, case["m"]))


def no_training(rec, sig, fn):
    """runs fn; any optimizer call or random draw is a violation"""
    sc = Script([{}], [{}])
    used = []

    def bad(*a, **k):
        used.append("optimizer")
        raise RuntimeError("a fixed model was optimized")
    with seams.Draws(lambda n, m, i: list(range(m))) as dr, seams.fake_minimize(bad), seams.fake_bayes(bad):
        out = rec.call(sig, fn)
    if dr.calls or used:
        rec.fail(f"{sig}.trained", f"draws {[(len(p), m) for p, m, _ in dr.calls]} {used}")
    return out


def run_fixed(case, rec, R):
    """fixed models: no training; then every order of up to three queries and every single-target perturbation"""
    st = FIXED[case["m"]]
    for n, kk, t, r in [(6, 2, 4, 0), (6, 2, 4, 1), (6, 3, 4, 2), (9, 5, 5, 3), (3, 1, 3, 1), (4, 3, 1, 4)]:
        w = World(n, 2, kk, t, r)
        for opt in ("scipy", "bayes"):
            m, nn, mu, v = no_training(rec, "do_regress.fixed", lambda: R.do_regress(A(w.T), A(w.X), A(w.Y), nn_count=kk, batch_count=3, opt_fn=opt_of(opt), k_kwargs=kw_of(st), nn_kwargs=dict(n_jobs=1)))
            m2, nn2 = no_training(rec, "make_regressor.fixed", lambda: R.make_regressor(A(w.X), A(w.Y), nn_count=kk, opt_fn=opt_of(opt), k_kwargs=kw_of(st), nn_kwargs=dict(n_jobs=1)))
            check_model(rec, "fixed", m, st, start_sval(st), f"{n},{kk}")
            queries(rec, R, [st], [start_sval(st)], w, m, nn, mu, v, multi=False)
            mu2, v2, _ = rec.call("regress_any", R.regress_any, m2, A(w.T), A(w.X), nn2, A(w.Y))
            if not (close6(mu2, N(mu)) and close6(v2, N(v))):
                rec.fail("make_regressor.fixed", diffmsg(mu2, N(mu)))
            rec.state((case["m"], n, kk, t, r, opt))


def run_mfixed(case, rec, R):
    sts = MFIX[case["m"]]
    r = len(sts)
    for n, kk, t in [(6, 2, 4), (9, 4, 5), (5, r + 1, r), (4, 3, 1)]:
        w = World(n, 2, kk, t, r)
        for form in (list, tuple):
            m, nn, mu, v = no_training(rec, "do_regress.mfixed", lambda: R.do_regress(A(w.T), A(w.X), A(w.Y), nn_count=kk, k_kwargs=form(kw_of(s) for s in sts), nn_kwargs=dict(n_jobs=1)))
            for i in range(r):
                check_model(rec, "mfixed", m.models[i], sts[i], start_sval(sts[i]), f"model {i}")
            queries(rec, R, sts, [start_sval(s) for s in sts], w, m, nn, mu, v, multi=True)
            rec.state((case["m"], n, kk, t, form is list))


def queries(rec, R, sts, svals, w, m, nn, mu, v, multi):
    t = len(w.T)

    def want(Y):
        if not multi:
            a, b = w.post(sts[0], svals[0], Y)
            return a.reshape((t,) + Y.shape[1:]), b
        pm = [w.post(s, sv, Y[:, i]) for i, (s, sv) in enumerate(zip(sts, svals))]
        return np.stack([p[0][:, 0] for p in pm], 1), np.stack([p[1] for p in pm], 1)
    wm, wv = want(w.Y)
    rec.trace(2)
    if not (close6(mu, wm) and close6(v, wv)):
        rec.fail("fixed.prediction", f"{diffmsg(mu, wm)}; {diffmsg(v, wv)}")
        return
    # every ordered selection of up to three test points gives the same rows
    for q in [s for l in (1, 2, 3) for s in itertools.permutations(range(t), min(l, t))] + [(0, 0), tuple(reversed(range(t)))]:
        q = list(q)
        a, b, _ = rec.call("regress_any", R.regress_any, m, A(w.T[q]), A(w.X), nn, A(w.Y))
        rec.state((repr(sts)[:80], w.n, w.kk, tuple(q)))
        if not (close6(a, wm[q]) and close6(b, wv[q])):
            rec.fail("regress_any.rows", f"test points {q}: {diffmsg(a, wm[q])}"); return
    # every single-target perturbation reaches exactly the queries that use that point
    for j in range(w.n):
        for c in range(max(1, w.Y.shape[1] if w.Y.ndim > 1 else 1)):
            Y = w.Y.copy()
            if Y.ndim > 1:
                Y[j, c] += 10.0
            else:
                Y[j] += 10.0
            a, b, _ = rec.call("regress_any", R.regress_any, m, A(w.T), A(w.X), nn, A(Y))
            pm, pv = want(Y)
            rec.trace()
            if not eq(b, v):
                rec.fail("perturb.variance", f"target {j} changes a variance"); return
            out = [i for i in range(t) if j not in w.tn[i]]
            if not eq(N(a)[out], N(mu)[out]):
                rec.fail("perturb.leak", f"target {j} changes predictions of {out}, whose neighbors are {w.tn[out].tolist()}"); return
            if not close6(a, pm):
                rec.fail("perturb.mean", f"target {j}: {diffmsg(a, pm)}"); return


def run_indices(case, rec, R):
    """the from_indices helpers on every small choice of query indices"""
    from MuyGPyS.examples import from_indices as FI
    from MuyGPyS.gp import MultivariateMuyGPS as MM
    st = UNI[case["m"]]
    n, kk, t = 10, 3, 4
    for r in (1, 2):
        w = World(n, 2, kk, t, r)
        m = mk_model(st)
        sv = start_sval(st)
        mm_ = MM(*[mk_args(st) for _ in range(r)])
        for test in ("test", "train"):
            src = w.T if test == "test" else w.X
            allnn = w.tn if test == "test" else w.own
            for q in [s for l in (1, 2, 3) for s in itertools.permutations(range(min(t, 4)), l)]:
                q = list(q)
                nn = allnn[q]
                Kin, Kc = ref_k(st, pair_diffs(w.X, nn)), ref_k(st, cross_diffs(src[q], w.X, nn))
                mu, v = ref_post(st, Kin, Kc, w.Y[nn], st["noise"], sv)
                rec.state((case["m"], r, test, tuple(q)))
                rec.trace(5)
                args = (I(q), I(nn), A(src), A(w.X), A(w.Y))
                for nm, mod, wv in (("uni", m, v), ("multi", mm_, np.stack([v] * r, 1))):
                    a = rec.call("posterior_mean_from_indices", FI.posterior_mean_from_indices, mod, *args)
                    b = rec.call("posterior_variance_from_indices", FI.posterior_variance_from_indices, mod, *args)
                    a2, b2 = rec.call("regress_from_indices", FI.regress_from_indices, mod, *args)
                    if not (close6(a, mu) and eq(a, a2)):
                        rec.fail(f"{nm}.posterior_mean_from_indices", diffmsg(a, mu)); return
                    if not (close6(b, wv) and eq(b, b2)):
                        rec.fail(f"{nm}.posterior_variance_from_indices", diffmsg(b, wv)); return
                P_, C_, T_ = rec.call("tensors_from_indices", FI.tensors_from_indices, m, *args)
                if not (close6(P_, Kin) and close6(C_, Kc) and eq(T_, N(A(w.Y))[nn])):
                    rec.fail("tensors_from_indices", diffmsg(P_, Kin)); return
                # precomputed coefficients, one row per training point
                co = vals(n * kk, r).reshape(n, kk, r)
                cl = [(3 * i + 1) % n for i in q]
                a = rec.call("fast_posterior_mean_from_indices", FI.fast_posterior_mean_from_indices, m, I(q), I(nn), A(src), A(w.X), I(cl), A(co))
                wf = np.einsum("bk,bkr->br", Kc, co[cl])
                if not closev(a, wf, rtol=1e-5, atol=1e-7):
                    rec.fail("fast_posterior_mean_from_indices", diffmsg(a, wf)); return
                a = rec.call("fast_posterior_mean_from_indices", FI.fast_posterior_mean_from_indices, mm_, I(q), I(nn), A(src), A(w.X), I(cl), A(co))
                if not close6(a, wf):
                    rec.fail("multi.fast_posterior_mean_from_indices", diffmsg(a, wf)); return
    # optimize_from_indices
    w = World(12, 2, 3, 3, 1)
    for b in [list(s) for s in itertools.permutations((1, 4, 7, 10), 3)][::5]:
        for loss in ("lool", "mse", "looph"):
            for opt in ("scipy", "bayes"):
                for kd in ("interior", "above", "below"):
                    a = answer_of(st, [kd] * 4)
                    sc = Script([vals_of(st)], [a])
                    m0 = mk_model(st)
                    with sc.on(opt), seams.Draws(lambda n, m, i: list(range(m))):
                        m = rec.call("optimize_from_indices", FI.optimize_from_indices, m0, I(b), I(w.own[b]), A(w.X), A(w.Y), loss_fn=c07.loss_obj(loss), opt_fn=opt_of(opt))
                    rec.state((case["m"], tuple(b), loss, opt, kd))
                    check_model(rec, "optimize_from_indices", m, answered(st, a), start_sval(st), f"{a}")
                    check_model(rec, "optimize_from_indices.input", m0, st, start_sval(st), f"{a}")
                    check_objective(rec, "optimize_from_indices", sc, 0, st, w, loss, np.array(b), w.Y)


def run_index(case, rec, R):
    """index options reach the index and do not change exact answers"""
    alg = [dict(), dict(nn_method="exact"), dict(nn_method="exact", algorithm="brute"), dict(nn_method="exact", algorithm="ball_tree", leaf_size=2),
           dict(nn_method="exact", algorithm="kd_tree"), dict(nn_method="hnsw", space="l2", ef_construction=100, M=16), dict(nn_method="exact", metric="manhattan"),
           dict(nn_method="exact", metric="chebyshev")][case["nn"]]
    for st in FIXED[:2]:
        for n, kk, t in [(10, 3, 5), (20, 5, 8), (12, 11, 3)]:
            w = World(n, 2, kk, t, 1)
            if alg.get("metric"):
                D = np.abs(w.T[:, None] - w.X[None])
                D = D.sum(-1) if alg["metric"] == "manhattan" else D.max(-1)
                w.tn = np.argsort(D, 1, kind="stable")[:, :kk]
                O = np.abs(w.X[:, None] - w.X[None]); O = O.sum(-1) if alg["metric"] == "manhattan" else O.max(-1)
                np.fill_diagonal(O, np.inf)
                w.own = np.argsort(O, 1, kind="stable")[:, :kk]
            m, nn, mu, v = no_training(rec, "do_regress.index", lambda: R.do_regress(A(w.T), A(w.X), A(w.Y), nn_count=kk, k_kwargs=kw_of(st), nn_kwargs=alg))
            wm, wv = w.post(st, start_sval(st), w.Y)
            rec.state((case["nn"], n, kk, t, st["kernel"])); rec.trace(2)
            check_index(rec, "index", nn, w)
            if not (close6(mu, wm) and close6(v, wv)):
                rec.fail("index.prediction", f"{alg}: {diffmsg(mu, wm)}")


def run_reject(case, rec, R):
    w = World(8, 2, 3, 2, 2)
    for cnt in (1, 2, 3):
        for form in (list, tuple):
            rec.state((cnt, form is list)); rec.trace()
            try:
                R.do_regress(A(w.T), A(w.X), A(w.Y), nn_count=3, k_kwargs=form(kw_of(FIXED[0]) for _ in range(cnt)), nn_kwargs=dict(n_jobs=1))
                ok = True
            except ValueError:
                ok = False
            if ok != (cnt == 2):
                rec.fail("reject.response-count", f"{cnt} specifications for 2 responses: accepted={ok}")
    for bad in ("rbf", 3, None):
        rec.trace()
        try:
            R.do_regress(A(w.T), A(w.X), A(w.Y), nn_count=3, k_kwargs=bad)
            rec.fail("reject.kind", repr(bad))
        except (ValueError, TypeError):
            pass


def run_repeat(case, rec, R):
    """two workflows in a row, in every order: a run does not depend on the ones before it; option dictionaries are not changed"""
    w1, w2 = World(14, 2, 3, 4, 1), World(11, 2, 4, 3, 1, 0.21)
    jobs = [(w1, UNI[0]), (w2, UNI[1]), (w1, UNI[4]), (w2, FIXED[0]), (w1, [UNI[1]]), (w2, UNI[3])]
    for seq in itertools.permutations(range(len(jobs)), 2):
        for j in seq:
            w, spec = jobs[j]
            st0 = spec[0] if isinstance(spec, list) else spec
            a = answer_of(st0, ["interior"] * 4)
            st = answered(st0, a)
            args = [kw_of(st0)] if isinstance(spec, list) else kw_of(st0)
            nnk, ok = dict(n_jobs=1, algorithm="brute"), {}
            keep = (sorted(args[0] if isinstance(args, list) else args), dict(nnk))
            script = list(range(w.n))[::2][:4]
            with seams.Draws(pick_of(w.n, 4, script), hint_of(w.n, 4, st0)), Script([vals_of(st0)], [a]).on("scipy"):
                m, nn, mu, v = rec.call("do_regress", R.do_regress, A(w.T), A(w.X), A(w.Y), nn_count=w.kk, batch_count=4, opt_fn=opt_of("scipy"), k_kwargs=args, nn_kwargs=nnk, opt_kwargs=ok)
            free = bool(c04.free_names(st0))
            sval = w.scale(st, np.array(script), w.Y) if free else start_sval(st0)
            wm, wv = w.post(st, sval, w.Y)
            rec.state(("repeat", seq, j)); rec.trace(2)
            if not (close6(mu, wm) and closev(v, wv, rtol=1e-5, atol=1e-7)):
                rec.fail("repeat.prediction", f"{seq}: {diffmsg(mu, wm)}"); return
            if keep != (sorted(args[0] if isinstance(args, list) else args), nnk) or ok:
                rec.fail("repeat.options-changed", f"{nnk} {ok}"); return
