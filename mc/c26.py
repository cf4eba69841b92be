"""C26: mini-batch optimization. The Bayesian optimizer is the real target space with a scripted search (which points it evaluates, or
what it reports as best), the random source is scripted; every combination of epochs, flags, answers and draws is run and every
epoch's objective, probes and batch, and the returned model, index and counts are compared with the reference history."""
import contextlib, copy, io, itertools, time
import seams
import numpy as np
from ref import *
import c04, c06, c07, c18

LB = c18.LB
AN = dict(t="analytic")
SPECS = [
    dict(kernel="rbf", ls=0.8, lsb=LB["length_scale"], noise=dict(t="homo", v=0.03), scale=AN),
    dict(kernel="matern", nu=1.5, ls=0.8, lsb=LB["length_scale"], noise=dict(t="homo", v=0.03, b=LB["noise"]), scale=dict(t="fixed", val=2.0)),
    dict(kernel="matern", nu=1.1, nub=LB["smoothness"], ls=0.8, noise=dict(t="homo", v=0.03), scale=dict(t="analytic", iteration_count=3)),
    dict(kernel="rbf", ls=[0.8, 1.4], lsb=[LB["length_scale0"], LB["length_scale1"]], noise=dict(t="homo", v=0.03), scale=AN, **{"def": "aniso"}),
    dict(kernel="matern", nu=2.5, ls=[0.8, 1.4], lsb=["fixed", LB["length_scale1"]], noise=dict(t="homo", v=0.03, b=LB["noise"]), scale=dict(t="fixed"), **{"def": "aniso"}),
    dict(kernel="rbf", ls=[0.8, 2.9], lsb=["fixed", "fixed"], noise=dict(t="homo", v=0.03, b=LB["noise"]), scale=AN, **{"def": "aniso"}),
    dict(kernel="rbf", ls=0.8, lsb=LB["length_scale"], noise=dict(t="homo", v=0.03), scale=dict(t="down", down_count=2, iteration_count=3), **{"def": "diso"}),
]
KW = [dict(init_points=2, n_iter=3, random_state=1), dict(), dict(init_points=0, n_iter=1), dict(init_points=1, n_iter=0), dict(init_points=4, allow_duplicate_points=False, random_state=7), dict(n_iter=2, kappa=3.0)]


def cases(tier, env):
    th = tier == "thorough"
    out = []
    for m in range(len(SPECS)):
        for keep, prev in itertools.product((False, True), repeat=2):
            for e in (1, 2, 3, 4):
                for loss in (("lool", "mse", "ph", "looph") if e == 2 else ("lool",)):
                    out.append(dict(k="space", m=m, keep=keep, prev=prev, e=e, n=14, bc=5, kk=3, loss=loss))
            for e in (1, 2, 3) if th else (1, 2):
                out.append(dict(k="answers", m=m, keep=keep, prev=prev, e=e, n=14, bc=5, kk=3, loss="lool"))
            for n, bc, kk in ((9, 9, 3), (9, 20, 3), (9, 8, 8), (20, 1, 3), (40, 33, 5), (70, 64, 3), (140, 129, 3), (300, 257, 3), (520, 513, 3)) + (((140, 128, 4), (300, 257, 3)) if th else ()):
                out.append(dict(k="space", m=m, keep=keep, prev=prev, e=2, n=n, bc=bc, kk=kk, loss="lool"))
            out.append(dict(k="space", m=m, keep=keep, prev=prev, e=6, n=14, bc=5, kk=3, loss="lool"))
        out.append(dict(k="draws", m=m, n=5 if not th else 6, bc=3, kk=3, e=2, keep=False, prev=True, loss="lool"))
        for i in range(len(KW)):
            out.append(dict(k="kw", m=m, i=i, n=14, bc=5, kk=3, loss="lool"))
        for loss, bs in (("ph", 0.4), ("looph", 0.7), ("looph", 9.0)):
            out.append(dict(k="space", m=m, keep=m % 2 == 0, prev=m % 3 == 0, e=2, n=14, bc=5, kk=3, loss=loss, lkw=dict(boundary_scale=bs)))
    out += with_layouts([dict(k="space", m=m, keep=False, prev=True, e=2, n=14, bc=5, kk=3, loss="lool") for m in (0, 3)])
    return out


class Optimizer:
    """the search of bayes_opt, scripted: what it evaluates each epoch and (optionally) what it reports as best"""

    def __init__(self, points, best=None):
        self.points, self.best, self.epochs, self.ctors = points, best, [], []

    def __call__(self, f=None, pbounds=None, *a, **k):
        outer = self

        class Inst(seams.RealBO):
            def __init__(s):
                outer.ctors.append((dict(k), {n: tuple(map(float, b)) for n, b in pbounds.items()}))
                super().__init__(f, pbounds, *a, **dict(k, verbose=0))
                s.todo = []

            def probe(s, params, lazy=True):
                if not isinstance(params, dict):
                    params = dict(zip(sorted(pbounds), params))
                s.todo.append({n: float(v) for n, v in params.items()})
                if not lazy:
                    s.ask(s.todo[-1])

            def ask(s, p):
                with contextlib.suppress(Exception) if not s._allow_duplicate_points else contextlib.nullcontext():
                    s._space.probe(p)

            def maximize(s, *ma, **mk):
                e = len(outer.epochs)
                ep = dict(probes=s.todo, args=ma, kw=mk, f=s._space.target_func, inst=id(s), asked=[])
                for p in s.todo + outer.points(e):
                    s.ask(p); ep["asked"].append(dict(p))
                ep["seen"] = s._space.params.copy(), s._space.target.copy(), list(s._space.keys)
                outer.epochs.append(ep)
                s.todo = []

            @property
            def max(s):
                if outer.best is not None:
                    return dict(target=1.0, params=dict(outer.best[min(len(outer.epochs) - 1, len(outer.best) - 1)]))
                return s._space.max()
        return Inst()


def at(st, p, clip=False):
    st = copy.deepcopy(st)
    for n, (lo, hi) in c04.free_names(st):
        v = p[n]
        c04.put(st, n, min(max(v, lo), hi) if clip else v)
    return st


def frac(st, t, j):
    return {n: lo + ((t + 0.31 * i + 0.17 * j) % 1.0) * (hi - lo) for i, (n, (lo, hi)) in enumerate(c04.free_names(st))}


class History:
    """the reference: the epochs of one call"""

    def __init__(self, w, st0, case, lkw=None):
        self.w, self.st0, self.case, self.lkw = w, st0, case, lkw or {}
        self.S = np.ones(w.X.shape[1])

    def nn(self, b):
        Z = self.w.X / self.S
        return nbrs(Z, Z[b], self.w.kk, skip=b)

    def train(self, st, b, nn):
        w = self.w
        return ref_k(st, pair_diffs(w.X, nn)), ref_k(st, cross_diffs(w.X[b], w.X, nn)), w.Y[nn], w.Y[b]

    def loss(self, st, b, nn):
        Kin, Kc, yn, y = self.train(st, b, nn)
        mu, v = ref_post(st, Kin, Kc, yn, st["noise"])
        s = c18.rscale(st, Kin, yn)
        return -c07.rloss(self.case["loss"], mu.reshape(y.shape), y, v, s, self.lkw)

    def rescale(self, st):
        if st.get("def") == "aniso":
            self.S = np.array(st["ls"], float)


def execute(rec, case, w, st0, points, best, script, kw, sig):
    from MuyGPyS.optimize.experimental.chassis import optimize_from_tensors_mini_batch as go
    n, bc, e = case["n"], case["bc"], case["e"]
    m0 = mk_model(st0)
    bo = Optimizer(points, best)
    count = [0]

    def pick(pool, m, i):
        if pool == n and m == bc:
            count[0] += 1
            return script(count[0] - 1)
        return list(range(m))
    X, Y = A(w.X), A(w.Y)
    # options at their documented defaults are sometimes left out
    opt = dict(num_epochs=e, keep_state=case["keep"], probe_previous=case["prev"], loss_fn=c07.loss_obj(case["loss"]))
    if (e + n + len(st0)) % 2 == 0:
        for name, default in (("num_epochs", 1), ("keep_state", False), ("probe_previous", False)):
            if opt[name] == default:
                del opt[name]
        if case["loss"] == "lool":
            del opt["loss_fn"]
    with seams.Draws(pick) as dr, seams.fake_bayes(bo), contextlib.redirect_stdout(io.StringIO()):
        t0 = time.process_time()
        m, lk, secs, npts, nsteps = rec.call("mini_batch", go, m0, X, Y, case["kk"], bc, n, **opt, **kw)
    spent = time.process_time() - t0
    rec.trace()
    if not 0 <= secs <= spent + 0.05:
        rec.fail("mini_batch.seconds", f"{secs} of the {spent} spent; {sig}")
    if not (np.array_equal(N(X), A(w.X)) and np.array_equal(N(Y), A(w.Y))):
        rec.fail("mini_batch.modifies-data", sig)
    batches = [np.asarray(g) for (pool, k, rep), g in zip(dr.calls, dr.picked) if len(pool) == n and k == bc and not rep and bc < n and not case["keep"]]
    if case["keep"] or bc >= n:
        batches = [np.arange(n)] * e
    if len(batches) != e:
        rec.fail("mini_batch.draws", f"{len(batches)} batches drawn for {e} epochs; {sig}")
        raise_stop()
    if len(bo.epochs) != e:
        rec.fail("mini_batch.epochs", f"{len(bo.epochs)} optimizer runs for {e} epochs; {sig}")
        raise_stop()
    return m0, m, lk, secs, npts, nsteps, bo, batches, dr


def raise_stop():
    from core import Stop
    raise Stop()


def check(rec, case, w, st0, res, best, kw, sig, light=False):
    m0, m, lk, secs, npts, nsteps, bo, batches, dr = res
    H = History(w, st0, case, kw.get("loss_kwargs"))
    e = case["e"]
    start = {n: v for n, v in c18.vals_of(st0).items() if n in dict(c04.free_names(st0))}
    bounds = dict(c04.free_names(st0))
    to_probe, total = [start], 0
    init, it = kw.get("init_points", 5), kw.get("n_iter", 20)
    evaluated = []

    def eqp(a, b):
        return set(a) == set(b) and all(abs(a[n] - b[n]) <= 1e-9 * max(1, abs(b[n])) for n in b)
    for ep in range(e):
        o, b = bo.epochs[ep], batches[ep]
        nn = H.nn(b)
        rec.state((json.dumps(case), sig, ep))
        if len(set(b.tolist())) != len(b):
            rec.fail("mini_batch.batch-repeats", f"epoch {ep}: {b.tolist()}; {sig}"); raise_stop()
        want = list(to_probe) if case["prev"] else ([start] if ep == 0 else [])
        if len(o["probes"]) != len(want) or not all(eqp(x, y) for x, y in zip(sorted(o["probes"], key=lambda q: sorted(q.items())), sorted(want, key=lambda q: sorted(q.items())))):
            rec.fail("mini_batch.probes", f"epoch {ep}: {o['probes']} instead of {want}; {sig}"); raise_stop()
        total += len(want)
        mk = dict(o["kw"])
        for i, v in enumerate(o["args"]):
            mk[["init_points", "n_iter"][i]] = v
        if mk.get("init_points", 5) != init or mk.get("n_iter", 25) != it:
            rec.fail("mini_batch.maximize-options", f"{mk} for {kw}; {sig}")
        # the objective of this epoch
        for p in [start, frac(st0, 0.05, 0), frac(st0, 0.6, 1)][: 1 if light else 3]:
            with seams.Draws(lambda n_, m_, i: list(range(m_))):
                got = float(np.ravel(N(rec.call("mini_batch.objective", o["f"], **p)))[0])
            ref = H.loss(at(st0, p), b, nn)
            rec.trace()
            if abs(got - ref) > 1e-5 * max(1, abs(ref)):
                rec.fail("mini_batch.objective", f"epoch {ep} batch {b.tolist()} at {p}: {got} instead of {ref}; {sig}"); raise_stop()
        # what the target space holds and its best
        if not case["keep"]:
            evaluated = []
        for p in o["asked"]:
            evaluated.append((p, H.loss(at(st0, p), b, nn)))
        if best is None:
            top = max(evaluated, key=lambda q: q[1])
            second = [v for p, v in evaluated if not eqp(p, top[0])]
            if second and top[1] - max(second) < 1e-6 * max(1, abs(top[1])):
                rec.note("near-tie")
            seen = [dict(zip(o["seen"][2], row)) for row in o["seen"][0]]
            if [len([1 for q in seen if eqp(q, p)]) > 0 for p, _ in evaluated] != [True] * len(evaluated):
                rec.fail("mini_batch.target-space", f"epoch {ep}: {seen} lacks one of {[p for p, _ in evaluated]}; {sig}"); raise_stop()
            if not case["keep"] and any(not any(eqp(q, p) for p, _ in evaluated) for q in seen):
                rec.fail("mini_batch.target-space-kept", f"epoch {ep}: {seen}; {sig}"); raise_stop()
            b_ep = top[0]
        else:
            b_ep = best[min(ep, len(best) - 1)]
        to_probe.append(b_ep)
        last = (b, nn)
        if ep < e - 1:
            H.rescale(at(st0, b_ep))
    for k_, pb in bo.ctors:
        if set(pb) != set(bounds) or any(not np.allclose(pb[n], bounds[n]) for n in pb):
            rec.fail("mini_batch.pbounds", f"{pb} instead of {bounds}; {sig}")
        if k_.get("random_state") != kw.get("random_state") or k_.get("allow_duplicate_points", False) is not kw.get("allow_duplicate_points", True):
            rec.fail("mini_batch.optimizer-options", f"{k_} for {kw}; {sig}")
    if npts != e * init + total or nsteps != e * it:
        rec.fail("mini_batch.counts", f"{npts} probes, {nsteps} steps instead of {e * init + total}, {e * it}; {sig}")
    # the model
    st = at(st0, b_ep, clip=True)
    Kin, Kc, yn, y = H.train(st, *last)
    sval = c18.rscale(st, Kin, yn)
    c18.check_model(rec, "mini_batch.result", m, st, sval, sig)
    c18.check_model(rec, "mini_batch.input", m0, st0, c18.start_sval(st0), sig)
    if m is m0:
        rec.fail("mini_batch.returns-input", sig)
    for n, bd in bounds.items():
        p = m.noise if n == "noise" else m.kernel._hyperparameters[n]
        if p.fixed() or tuple(float(x) for x in p.get_bounds()) != tuple(float(x) for x in bd):
            rec.fail("mini_batch.bounds", f"{n}; {sig}")
    wm, wv = w.post(st, sval, w.Y)
    t = len(w.T)
    cr, pr, nt = m.make_predict_tensors(I(range(t)), I(w.tn), A(w.T), A(w.X), A(w.Y))
    K, C = m.kernel(pr), m.kernel(cr)
    if not c18.close6(m.posterior_mean(K, C, nt).reshape(t), wm.reshape(t)):
        rec.fail("mini_batch.mean", sig)
    if not c18.close6(m.posterior_variance(K, C), wv):
        rec.fail("mini_batch.variance", sig)
    c18.check_index(rec, "mini_batch", lk, w)
    rec.outcome((case["m"], repr(sorted((n, round(v, 6)) for n, v in b_ep.items())), case["keep"], case["prev"]))


def order_of(n, bc):
    def script(i):
        return [int(x) for x in np.roll(np.arange(n)[::-1] if i % 2 else np.arange(n), 2 * i + 1)[:bc]]
    return script


def run(case, rec):
    from core import Stop
    st0 = SPECS[case["m"]]
    w = c18.World(case["n"], 2, case["kk"], 4, 1)
    w.X = w.X * np.array([1.0, 1.6])          # scaled neighborhoods differ
    w.own = nbrs(w.X, w.X, w.kk, skip=np.arange(w.n)); w.tn = nbrs(w.X, w.T, w.kk)
    w.Y = w.Y.reshape(-1)
    kw = dict(KW[0])
    if case.get("lkw"):
        kw["loss_kwargs"] = dict(case["lkw"])
    free = [n for n, _ in c04.free_names(st0)]
    if case["k"] == "space":
        for j in range(3):
            pts_ = lambda e, j=j: [frac(st0, 0.13 + 0.29 * j, e), frac(st0, 0.77, e + 2 * j)] if not (j == 2 and e % 2 and (case["keep"] or case["prev"])) else []  # noqa
            one(rec, case, w, st0, pts_, None, order_of(case["n"], case["bc"]), kw, f"points {j}", light=case["n"] > 30)
            if case["n"] > 30:
                break
    elif case["k"] == "answers":
        kinds = ["interior", "same"] if st0.get("def") == "aniso" else c18.KINDS
        last = c18.KINDS
        pools = [list(itertools.product(kinds if i < case["e"] - 1 else last, repeat=len(free))) for i in range(case["e"])]
        if case["e"] == 3:
            pools = [p[:: max(1, len(p) // 4)] for p in pools]
        for combo in itertools.product(*pools):
            best = [shifted(st0, c18.answer_of(st0, kd), i) for i, kd in enumerate(combo)]
            one(rec, case, w, st0, lambda e: [], best, order_of(case["n"], case["bc"]), kw, f"answers {best}", light=True)
            if rec.fails:
                return
    elif case["k"] == "draws":
        n, bc = case["n"], case["bc"]
        every = [list(c) for c in itertools.combinations(range(n), bc)]
        for a, b in itertools.product(every, repeat=2):
            one(rec, case, w, st0, lambda e: [frac(st0, 0.2, e)], None, lambda i: [a, b[::-1]][min(i, 1)], kw, f"draws {a} {b}", light=True)
            if rec.fails:
                return
    else:
        kw = KW[case["i"]]
        for keep, prev, e in itertools.product((False, True), (False, True), (1, 3)):
            c = dict(case, keep=keep, prev=prev, e=e)
            one(rec, c, w, st0, lambda e: [frac(st0, 0.2, e)], None, order_of(case["n"], case["bc"]), dict(kw, verbose=True) if e == 3 else kw, f"options {kw}", light=True)


def shifted(st0, a, i):
    """answers of different epochs differ"""
    return {n: v if not lo < v < hi else min(hi, v * (1 + 0.05 * i)) for n, v, (lo, hi) in ((n, a[n], b) for n, b in c04.free_names(st0))}


def one(rec, case, w, st0, points, best, script, kw, sig, light=False):
    from core import Stop
    try:
        check(rec, case, w, st0, execute(rec, case, w, st0, points, best, script, kw, sig), best, kw, sig, light)
    except Stop:
        pass
