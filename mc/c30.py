"""C30: failures leave no trace. Crash-point exploration: every public operation is interrupted before every line of library code it
executes; afterwards every array, model, index and process-wide setting is as before and the operation, repeated, answers as if nothing had
happened. In-place updates that fail (illegal arguments, singular systems, failing random source or optimizer) change nothing."""
import itertools, os, sys, warnings
import seams
import numpy as np
from ref import *
from ref import P
import core, c07, c18, c23, c29
from c29_state import settings

SRC = os.path.join(os.path.realpath(core.REPO), "src", "MuyGPyS") + os.sep
DIMS = [(2, 2, 2), (3, 2, 1), (1, 1, 1)]


class Interrupted(BaseException):
    pass


class Failing(Exception):
    pass


def traced(fn, stop):
    """runs fn, interrupting it before the stop-th line of library code; (lines executed, interrupted, result)"""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == stop:
                raise Interrupted()
        return local

    def start(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(SRC) or os.path.realpath(f).startswith(SRC):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(start)
    try:
        return n[0], False, fn()
    except Interrupted:
        return n[0], True, None
    finally:
        sys.settrace(old)


def lines(fn):
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def start(frame, event, arg):
        f = frame.f_code.co_filename
        return local if f.startswith(SRC) or os.path.realpath(f).startswith(SRC) else None
    old = sys.gettrace()
    sys.settrace(start)
    try:
        fn()
    finally:
        sys.settrace(old)
    return n[0]


def chosen(n, cap, rest):
    """all crash points up to the cap, then (workflows of thousands of lines) the ones of one residue class each"""
    return list(range(1, n + 1)) if n <= cap else sorted(set(range(1, n + 1, -(-n // cap))) | set(range(max(1, n - rest), n + 1)) | set(range(1, rest)))


def table(d):
    return {n: f for n, f in c29.table(d).items() if not n.startswith("real.")}


SPECS = [dict(kernel="rbf", ls=0.8, lsb=[0.2, 3.0], noise=dict(t="homo", v=0.03, b=[0.001, 0.3]), scale=dict(t="analytic")),
         dict(kernel="matern", nu=1.5, ls=[0.8, 1.3], noise=dict(t="homo", v=0.03), scale=dict(t="down", down_count=1, iteration_count=3), **{"def": "aniso"}),
         dict(kernel="matern", nu=0.5, ls=0.8, noise=dict(t="null"), scale=dict(t="fixed", val=2.0)),
         dict(kernel="matern", nu=2.5, ls=[0.8, 1.3, 0.6], lsb=[[0.2, 3.0], "fixed", [0.1, 2.0]], noise=dict(t="homo", v=0.03), scale=dict(t="analytic"), **{"def": "aniso"})]
BAD = ["bogus", [1.0, 2.0], (0.5,), None, "sample", 1e9, -1e9, float("nan"), [], {}, "fixed"]
BADB = ["bogus", 3.0, [1.0], [1.0, 2.0, 3.0], ["a", 1.0], [1.0, "b"], [3.0, 1.0], None, [], [None, 2.0], [[1.0], 2.0]]


def cases(tier, env):
    out = []
    for d in range(len(DIMS) if tier == "thorough" else 2):
        names = sorted(table(DIMS[d]))
        out += [dict(k="crash", d=d, op=n, cap=4000 if tier == "thorough" else 250) for n in names if d == 0 or not n.startswith(("do_", "optimize", "mini"))]
    for s in range(len(SPECS)):
        out.append(dict(k="set", s=s))
        out.append(dict(k="illegal", s=s))
        if not TORCH:
            out.append(dict(k="opt", s=s))
    for r in (1, 2, 3, 4) if tier == "quick" else range(1, 7):
        for bad in range(r):
            for how in ("singular", "down"):
                for b, k in ((1, 2), (2, 2), (3, 4), (r, r + 1)):
                    out.append(dict(k="multi", r=r, bad=bad, how=how, b=b, n=k))
    out += [dict(k="train"), dict(k="lookup")]
    if TORCH:
        import c17
        for raw in (0, 1):
            for mode in (True, False):
                out += [dict(k="layer", m=nm, raw=raw, mode=mode, d=[4, 3, 1]) for nm in c17.SPECS] + [dict(k="layer", multi=i, raw=raw, mode=mode, d=[4, 3, len(c17.MULTI[i])]) for i in range(len(c17.MULTI))]
    return out


# ------------------------------------------------------------------ what a model is, as far as anybody can tell
def f_of(s):
    return len(s["ls"]) if not is_iso(s) else 2


def seen(m, s):
    """every answer of a model on fixed tensors, and everything it reports"""
    f = f_of(s)
    X = pts(8, f, 0.2)
    bi = np.array([1, 4, 6]); nn = nbrs(X, X[bi], 3, skip=bi)
    c, p, t = A(cross_diffs(X[bi], X, nn)), A(pair_diffs(X, nn)), A(vals(8, 1)[nn])
    if is_iso(s):
        mt = m.kernel.deformation.metric
        c, p = mt(c), mt(p)
    K, Kc = m.kernel(p), m.kernel(c)
    names, params, bounds = m.get_opt_params()
    q = m.kernel.get_opt_fn()
    out = [K, Kc, q(p), m.posterior_mean(K, Kc, t), m.posterior_variance(K, Kc), m.fast_coefficients(K, t[..., 0]), m.scale()]
    return [np.array(N(x), dtype=float) for x in out] + [repr((list(names), np.array(N(params), dtype=float).tolist(), np.array(N(bounds), dtype=float).tolist())), bool(m.scale.trained), bool(m.fixed())] + [str(x) for x in c29.found(m)]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + case["k"]](case, rec)


def do_crash(case, rec):
    d = DIMS[case["d"]]
    T = table(d)
    nm = case["op"]
    w = c23.World(d)
    c23.full_nn(w)

    def go():
        np.random.seed(3)
        return T[nm](w)
    rec.call(nm, go); rec.call(nm, go)                  # whatever is imported or set up on first use
    want = c23.copies(rec.call(nm, go))
    others = {n: None for n in sorted(T)}
    for n in others:
        np.random.seed(3)
        others[n] = c23.copies(rec.call(n, T[n], w))
    n = lines(go)
    s0 = settings()
    pts_ = chosen(n, case["cap"], 40)
    for i in pts_:
        rec.state((case["d"], nm, i)); rec.trans()
        _, hit, _ = traced(go, i)
        if not hit:
            rec.notes["short"] = rec.notes.get("short", 0) + 1
            continue
        ch = w.changed()
        if ch:
            rec.fail(f"{nm}.crash.modifies", f"{nm} interrupted before its line {i} of {n} leaves {ch} changed"); return
        s1 = settings()
        bad = [k for k in s0 if s0[k] != s1[k]]
        if bad:
            rec.fail(f"{nm}.crash.settings", f"{nm} interrupted before its line {i} of {n} leaves {[(k, repr(s0[k])[:200], repr(s1[k])[:200]) for k in bad]}"); return
        rec.trace()
        if i % 5 == 0 or n < 60 or i == n:
            if not c23.same_values(want, c23.copies(rec.call(nm, go))):
                rec.fail(f"{nm}.crash.repeat", f"{nm} answers differently after it was interrupted before its line {i} of {n}"); return
    if not c23.same_values(want, c23.copies(rec.call(nm, go))):
        rec.fail(f"{nm}.crash.repeat", f"{nm} answers differently after interruptions"); return
    for o in others:
        np.random.seed(3)
        if not c23.same_values(others[o], c23.copies(rec.call(o, T[o], w))):
            rec.fail(f"{o}.crash.other", f"{o} answers differently after {nm} was interrupted"); return
    rec.outcome((nm, len(pts_) == n))


def do_set(case, rec):
    """set_params with one name that does not exist, in every order with every subset of those that do"""
    s = SPECS[case["s"]]
    m0 = mk_model(s)
    names = sorted(m0.kernel._hyperparameters)
    for r in range(0, len(names) + 1):
        for sub in itertools.combinations(names, r):
            for order in itertools.permutations(sub + ("no_such_parameter",)):
                m = mk_model(s)
                before = seen(m, s)
                kw = {n: P(1.5 if n != "smoothness" else 2.5) for n in order}
                rec.state((case["s"], order)); rec.trans()
                if not refused(lambda: m.kernel.set_params(**kw)):
                    rec.fail("set_params.accepts", f"{order} accepted"); return
                rec.trace()
                if not same(before, seen(m, s)):
                    rec.fail("set_params.partial", f"a refused set_params{order} changes the model"); return
                if sub:
                    ok = {n: v for n, v in kw.items() if n in names}
                    rec.call("set_params", m.kernel.set_params, **ok)
                    q = mk_model(s)
                    rec.call("set_params", q.kernel.set_params, **ok)
                    if not same(seen(q, s), seen(m, s)):
                        rec.fail("set_params.retry", f"setting {sorted(ok)} after a refusal differs from setting them at once"); return
    rec.outcome(case["s"])


def do_illegal(case, rec):
    """every setter, with every illegal value, on every parameter; what is refused changes nothing"""
    s = SPECS[case["s"]]
    m = mk_model(s)
    before = seen(m, s)

    def attempt(what, fn, undo):
        nonlocal m, before
        rec.state((case["s"], what)); rec.trans()
        if refused(fn):
            rec.trace()
            if not same(before, seen(m, s)):
                rec.fail("illegal.partial", f"refused {what} changes the model"); return False
            rec.outcome("refused")
        else:
            m = mk_model(s); before = seen(m, s)           # legal after all: not this property's business
        return True
    for n in sorted(m.kernel._hyperparameters) + ["noise", "scale"]:
        for v in BAD + [m, np.ones(3), np.ones((2, 2))]:
            def setv():
                p = m.scale if n == "scale" else m.noise if n == "noise" else m.kernel._hyperparameters[n]
                (p._set if n == "scale" else p._set_val)(v)
            if not attempt(f"{n} <- {v!r:.40}", setv, None):
                return
        for b in BADB:
            def setb():
                p = m.noise if n == "noise" else m.kernel._hyperparameters[n]
                p._set_bounds(b)
            if n != "scale" and not attempt(f"bounds of {n} <- {b!r:.40}", setb, None):
                return


def do_train(case, rec):
    """training a scale that fails"""
    for si, s in enumerate(SPECS):
        f = f_of(s)
        X = pts(8, f, 0.2)
        bi = np.array([1, 4, 6]); nn = nbrs(X, X[bi], 3, skip=bi)
        p, t = pair_diffs(X, nn), vals(8, 1)[nn]
        for trained in (False, True):
            for j in range(3):
                for how in ("singular", "draw", "few", "shape"):
                    m = mk_model(s)
                    q = A(p)
                    if is_iso(s):
                        q = m.kernel.deformation.metric(q)
                    K = np.array(N(m.kernel(q)))
                    tt = t
                    if trained:
                        with seams.Draws(lambda N_, n_, i: list(range(n_))):
                            m = rec.call("optimize_scale", m.optimize_scale, q, A(t))
                    before = seen(m, s)

                    def choice(*a, **k):
                        if choice.i == j:
                            raise Failing("the random source failed")
                        choice.i += 1
                        return np.array([0])
                    choice.i = 0
                    kw = {}
                    if how == "singular":
                        if s["noise"]["t"] != "null":
                            continue
                        pd = p.copy(); pd[j] = 0.0
                        arg = A(pd) if not is_iso(s) else m.kernel.deformation.metric(A(pd))
                    elif how == "draw":
                        if s["scale"]["t"] != "down":
                            continue
                        arg = q; kw = dict(choice=choice)
                    elif how == "few":
                        if s["scale"]["t"] != "down":
                            continue
                        arg, tt = q[:, :1, :1], t[:, :1]
                    else:
                        arg, tt = q, t[:, :2]
                    rec.state((si, trained, j, how)); rec.trans()
                    with seams.patched(**kw):
                        bad = refused(lambda: m.optimize_scale(arg, A(tt)))
                    if not bad:
                        continue
                    rec.trace(); rec.outcome(how)
                    if not same(before, seen(m, s)):
                        rec.fail("train.partial", f"a scale training that failed ({how}) changes the model {s}"); return
                    a, b = mk_model(s), m
                    with seams.Draws(lambda N_, n_, i: list(range(n_))):
                        a, b = a.optimize_scale(q, A(t)), b.optimize_scale(q, A(t))
                    if not same(seen(a, s), seen(b, s)):
                        rec.fail("train.retry", f"training {s} after a failure ({how}) differs from training at once"); return


def do_multi(case, rec):
    """multivariate training that fails at one of the models"""
    from MuyGPyS.gp import MultivariateMuyGPS as MM
    r, bad, b, k = case["r"], case["bad"], case["b"], case["n"]
    specs = []
    for i in range(r):
        s = dict(kernel="rbf", metric="l2", ls=0.6 + 0.1 * i, noise=dict(t="homo", v=0.02 + 0.01 * i), scale=dict(t="analytic"))
        if i == bad:
            s = dict(s, scale=dict(t="down", down_count=k + 1, iteration_count=1)) if case["how"] == "down" else dict(s, noise=dict(t="null"))
        specs.append(s)
    m = MM(*[mk_args(s) for s in specs])
    X = pts(b + k + 3, 2, 0.3)
    bi = np.arange(b); nn = nbrs(X, X[bi], k, skip=bi)
    p = np.sqrt((pair_diffs(X, nn) ** 2).sum(-1))
    t = vals(len(X), r)[nn]
    p_bad = p.copy()
    if case["how"] == "singular":
        p_bad[b - 1] = 0.0
        if k < 2:
            return
    before = [seen(x, s) for x, s in zip(m.models, specs)]
    rec.state((r, bad, b, k, case["how"])); rec.trans()
    if not refused(lambda: m.optimize_scale(A(p_bad), A(t))):
        rec.outcome("accepted"); return
    rec.trace(); rec.outcome(case["how"])
    after = [seen(x, s) for x, s in zip(m.models, specs)]
    if not all(same(x, y) for x, y in zip(before, after)):
        rec.fail("multi.partial", f"training {r} models failed at model {bad} ({case['how']}); models {[i for i in range(r) if not same(before[i], after[i])]} are changed"); return
    if case["how"] == "singular":
        q = MM(*[mk_args(s) for s in specs])
        rec.call("optimize_scale", q.optimize_scale, A(p), A(t)); rec.call("optimize_scale", m.optimize_scale, A(p), A(t))
        if not all(same(seen(x, s), seen(y, s)) for x, y, s in zip(q.models, m.models, specs)):
            rec.fail("multi.retry", "training after a failure differs from training at once"); return
    # too many or too few responses
    for rr in {r - 1, r + 1} - {0}:
        m2 = MM(*[mk_args(s) for s in specs])
        b0 = [seen(x, s) for x, s in zip(m2.models, specs)]
        if refused(lambda: m2.optimize_scale(A(p), A(vals(len(X), rr)[nn]))) and not all(same(x, seen(y, s)) for x, y, s in zip(b0, m2.models, specs)):
            rec.fail("multi.partial", f"refused training with {rr} responses changes the models"); return


def do_opt(case, rec):
    """the optimizer, the loss or the surrogate fails after every number of evaluations"""
    from scipy.optimize import OptimizeResult
    s = SPECS[case["s"]]
    f = f_of(s)
    X = pts(12, f, 0.2)
    bi = np.array([1, 4, 6, 9]); nn = nbrs(X, X[bi], 3, skip=bi)
    c, p, t, y = A(cross_diffs(X[bi], X, nn)), A(pair_diffs(X, nn)), A(vals(12, 1)[nn]), A(vals(12, 1)[bi])
    m = mk_model(s)
    if not m.get_opt_params()[0]:
        return
    if is_iso(s):
        mt = m.kernel.deformation.metric
        c, p = mt(c), mt(p)
    before = seen(m, s)
    for opt in ("scipy", "bayes"):
        for where in ("optimizer", "result"):
            for j in range(0, 5):
                calls = [0]

                def tick(w):
                    if w != where:
                        return
                    calls[0] += 1
                    if calls[0] > j:
                        raise Failing(w)
                def fmin(fun, x0, *a, **k):
                    for q in (1.0, 1.05, 0.95):
                        fun(np.array(x0) * q); tick("optimizer")
                    if where == "result" and j < 2:
                        raise Failing("no result")
                    return OptimizeResult(x=np.array(x0) * 1.1, fun=0.0, success=True, status=0, message="", nit=1, nfev=1)

                def search(*a, **k):
                    class S(seams.RealBO):
                        def suggest(self_, *aa, **kk):
                            tick("optimizer")
                            return self_._space.array_to_params(self_._space.random_sample())

                        @property
                        def max(self_):
                            tick("result")
                            return self_._space.max()
                    return S(*a, **dict(k, verbose=0))
                rec.state((case["s"], opt, where, j)); rec.trans()
                kw = dict(init_points=1, n_iter=3, random_state=1, allow_duplicate_points=True) if opt == "bayes" else {}
                with seams.fake_minimize(fmin), seams.fake_bayes(search), seams.Draws(lambda N_, n_, i: list(range(n_))):
                    try:
                        c18.opt_of(opt)(m, y, t, c, p, loss_fn=c07.loss_obj("mse"), **kw)
                        failed = False
                    except Failing:
                        failed = True
                rec.trace(); rec.outcome((opt, where, failed))
                if not same(before, seen(m, s)):
                    rec.fail(f"optimize.{opt}.partial", f"an optimization whose {where} failed at step {j} changes the model it was given"); return


def do_lookup(case, rec):
    """queries that are refused, of every kind of index"""
    from MuyGPyS.neighbors import NN_Wrapper
    for f in (1, 2, 3):
        X, Q = pts(9, f, 0.1), pts(4, f, 0.6)
        kinds = [dict(algorithm=a) for a in ("ball_tree", "kd_tree", "brute", "auto")] + ([dict(nn_method="hnsw", space="l2", ef_construction=100, M=16)] if not TORCH else [])
        for kw in kinds:
            for k in (1, 3, 8):
                lk = NN_Wrapper(A(X), k, **(dict(kw, n_jobs=1) if "nn_method" not in kw else kw))

                def answers():
                    return [N(x) for x in (*lk.get_nns(A(Q)), *lk.get_batch_nns(I(np.array([3, 0, 7]))))]
                before = rec.call("answers", answers)
                bad = [("get_nns", x) for x in (A(pts(3, f + 1)), A(pts(3, f)[:, :0]), None, "abc", A(np.full((2, f), np.nan)), A(np.full((2, f, 2, 2), 0.5)))]
                bad += [("get_batch_nns", x) for x in (I(np.array([100])), None, "abc", I(np.array([1, 2, 100])), I(np.array([-20])))]
                for j, (what, x) in enumerate(bad):
                    rec.state((f, repr(kw), k, what, j)); rec.trans()
                    if not refused(lambda: getattr(lk, what)(x)):
                        continue
                    rec.trace(); rec.outcome((what, j))
                    got = rec.call("answers", answers)
                    if not all(np.array_equal(p, q) for p, q in zip(before, got)):
                        rec.fail(f"{what}.refused", f"a refused {what} of {np.shape(x) if x is not None else None} changes the answers of {kw}, {k} neighbors"); return


def do_layer(case, rec):
    """a torch layer interrupted before every line of its forward pass"""
    import torch, c17
    w = c17.World(case)
    w.net.train(case["mode"])

    def go():
        return w.net(w.x)

    def all_of():
        w.net.zero_grad()
        out = [t for t in go() if t is not None]
        sum(t.sum() for t in out).backward()
        ms = w.models()
        return [np.array(N(t.detach())) for t in out] + [np.array(N(p.grad)) for p in w.net.parameters() if p.grad is not None] + [np.array(N(v)) for v in w.net.state_dict().values()] \
            + [np.array(N(x)) for m in ms for x in c29.found(m)] + [np.array(w.net.training), np.array([bool(m.scale.trained) for m in ms])]
    rec.call("forward", all_of)
    want = rec.call("forward", all_of)
    n = lines(go)
    s0 = settings()
    for i in range(1, n + 1):
        rec.state((repr(case), i)); rec.trans()
        if not traced(go, i)[1]:
            continue
        rec.trace()
        bad = [k for k in s0 if s0[k] != settings()[k]]
        if bad:
            rec.fail("layer.crash.settings", f"a forward pass interrupted before line {i} of {n} changes {bad}"); return
        got = rec.call("forward", all_of)
        if len(got) != len(want) or not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(got, want)):
            rec.fail("layer.crash", f"a forward pass interrupted before line {i} of {n} changes the layer {case}"); return
    rec.outcome((case["mode"], case["raw"], n > 10))
