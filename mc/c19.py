"""C19: classification workflows. All labelings of small training sets, all draws and optimizer answers, all mask patterns."""
import contextlib, copy, io, itertools, warnings
import seams
import numpy as np
from ref import *
import c04, c06, c07, c18
from c11 import every_draw
from c18 import World, Script, opt_of, kw_of, answer_of, answered, vals_of, start_sval, check_model, check_objective, check_index, close6, no_training, UNI, FIXED

ENC = [(0.0, 1.0), (-0.1, 0.9), (-1.0, 1.0)]
KNOWN_UNANIMITY = "classify_any:unanimity-from-first-class-only"
KNOWN_WIDTH = "make_masks:half-width-is-cut-times-variance"


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for c, n in [(2, 4), (2, 5), (2, 6), (3, 4), (3, 5), (4, 4), (4, 5)] + [(2, 8), (3, 6), (4, 6)] * th:
        for kk in (1, 2, 3):
            for e in range(3):
                for m in (range(3) if c < 4 or th else (0,)):
                    for multi in (False, True):
                        out.append(dict(k="any", c=c, n=n, kk=kk, e=e, m=m, multi=multi))
    for c in (2, 3, 4):
        for m in range(len(UNI)):
            for opt in ("scipy", "bayes"):
                out.append(dict(k="train", c=c, m=m, opt=opt))
        for m in (0, 2, 3):
            out.append(dict(k="draws", c=c, m=m))
        for kind in ("none", "some", "all"):
            for opt in ("scipy", "bayes"):
                out.append(dict(k="multi", c=c, fixed=kind, opt=opt))
    out.append(dict(k="tuple"))
    for n, kk, t, c in [(30, 5, 17, 3), (64, 10, 33, 2), (65, 3, 65, 4), (100, 2, 129, 10), (12, 11, 5, 2), (130, 8, 64, 2)]:
        out.append(dict(k="size", n=n, kk=kk, t=t, c=c))
    for n in (4, 5, 6) + (7,) * th:
        for kk in (1, 2, 3):
            for e in range(3):
                out.append(dict(k="two", n=n, kk=kk, e=e))
    for s in range(16):
        out.append(dict(k="interval", s=s))
    for t in (1, 2, 3, 4):
        out.append(dict(k="uq", t=t))
    out.append(dict(k="masks"))
    for m in (0, 1):
        for opt in ("scipy", "bayes"):
            for e in range(3):
                out.append(dict(k="do_uq", m=m, opt=opt, e=e, fixed=False))
    for e in range(3):
        out.append(dict(k="do_uq", m=0, opt="scipy", e=e, fixed=True))
    out += with_layouts([dict(k="any", c=2, n=5, kk=2, e=1, m=0, multi=False), dict(k="any", c=3, n=4, kk=2, e=2, m=1, multi=True), dict(k="two", n=5, kk=2, e=1), dict(k="uq", t=2)])
    return out


def onehot(lab, c, e):
    lo, hi = ENC[e]
    return np.where(np.asarray(lab)[:, None] == np.arange(c)[None, :], hi, lo)


def predict(w, sts, svals, Y):
    """documented answer: common label of the neighbors, else posterior mean; and the shortcut's answer when it looks at column 0 only"""
    t, c = len(w.T), Y.shape[1]
    mu = np.zeros((t, c)); var = np.zeros((t, len(sts)))
    for j, (s, sv) in enumerate(zip(sts, svals)):
        a, v = w.post(s, sv, Y)
        var[:, j] = v
        if len(sts) == 1:
            mu = a
        else:
            mu[:, j] = a[:, j]
    same = np.array([all(np.array_equal(Y[i], Y[w.tn[q][0]]) for i in w.tn[q]) for q in range(t)])
    first = np.array([all(Y[i, 0] == Y[w.tn[q][0], 0] for i in w.tn[q]) for q in range(t)])
    lab = np.array([Y[w.tn[q][0]] for q in range(t)])
    want = np.where(same[:, None], lab, mu)
    bug = np.where(first[:, None], lab, mu)
    wv = np.where(same[:, None], 0.0, var)
    return want, bug, wv, same


def judge(rec, sig, got, want, bug, where):
    rec.trace()
    if close6(got, want):
        return True
    if close6(got, bug):
        rec.fail(KNOWN_UNANIMITY, f"{where}: {diffmsg(got, want)}")
        return True
    rec.fail(f"{sig}.prediction", f"{where}: {diffmsg(got, want)}")
    return False


def run(case, rec):
    from MuyGPyS.examples import classify as C
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return globals()["run_" + case["k"]](case, rec, C)


def run_any(case, rec, C):
    from MuyGPyS.gp import MuyGPS, MultivariateMuyGPS as MM
    from MuyGPyS.neighbors import NN_Wrapper
    c, n, kk = case["c"], case["n"], case["kk"]
    w = World(n, 2, kk, 5, c)
    st = FIXED[case["m"]]
    sts = [st] if not case["multi"] else [dict(st, noise=dict(t="homo", v=0.01 * (i + 1))) for i in range(c)]
    mod = mk_model(st) if not case["multi"] else MM(*[mk_args(s) for s in sts])
    nn = NN_Wrapper(A(w.X), kk, n_jobs=1)
    svals = [start_sval(s) for s in sts]
    T, X = A(w.T), A(w.X)
    for lab in itertools.product(range(c), repeat=n):
        Y = onehot(lab, c, case["e"])
        want, bug, _, same = predict(w, sts, svals, Y)
        got, _ = rec.call("classify_any", C.classify_any, mod, T, X, nn, A(Y))
        rec.state((c, n, kk, case["e"], case["m"], case["multi"], lab))
        rec.outcome((tuple(same), np.argmax(want, 1).tobytes()))
        if not judge(rec, "classify_any", got, want, bug, f"labels {lab}"):
            return
        if sum(lab) % 5 == 0:
            # rows follow the test points whatever their order and company
            for q in ([4, 2, 0], [1], [3, 3, 0, 1], [4, 3, 2, 1, 0]):
                g, _ = rec.call("classify_any", C.classify_any, mod, A(w.T[q]), X, nn, A(Y))
                if not judge(rec, "classify_any.rows", g, want[q], bug[q], f"labels {lab} test points {q}"):
                    return


def mixed_points(w, lab):
    return [i for i in range(w.n) if len({lab[j] for j in w.own[i]}) > 1]


LAB = {2: [(0, 1, 0, 1, 1, 0, 0, 1, 1, 0), (1, 0, 0, 0, 1, 0, 1, 0, 0, 0)], 3: [(0, 1, 2, 0, 1, 2, 2, 1, 0, 0), (2, 2, 0, 1, 0, 0, 0, 0, 1, 0)], 4: [(0, 1, 2, 3, 0, 1, 2, 3, 3, 0)]}


def run_train(case, rec, C):
    """trainable classifiers: the batch, the objective and the result for every answer, below and above the batch count"""
    st0 = UNI[case["m"]]
    c, n, kk = case["c"], 10, 3
    w = World(n, 2, kk, 5, c)
    free = c04.free_names(st0)
    for lab in LAB[c]:
        w.Y = onehot(lab, c, 1 if c == 3 else 0)
        mixed = mixed_points(w, lab)
        for bc in (c, 2 * c, n - 1, n, n + 5):
            for loss in ("ce", "mse"):
                for j, kd in enumerate(itertools.product(["interior", "above", "below", "same"] if bc == n else ["interior"], repeat=len(free))):
                    a = answer_of(st0, kd)
                    st = answered(st0, a)
                    for entry in ("do", "make") if j == 0 else ("do",):
                        sc = Script([vals_of(st0)], [a])
                        kw = dict(nn_count=kk, batch_count=bc, loss_fn=c07.loss_obj(loss), opt_fn=opt_of(case["opt"]), k_kwargs=kw_of(st0), nn_kwargs=dict(n_jobs=1))
                        if loss == "ce" and j == 0:
                            del kw["loss_fn"]
                        if j == 1:
                            kw["verbose"] = True
                        X, Y, T = A(w.X), A(w.Y), A(w.T)
                        with seams.Draws(lambda N_, m, i: list(range(N_))[::-1][:m], bc // c) as dr, sc.on(case["opt"]), contextlib.redirect_stdout(io.StringIO()):
                            if entry == "do":
                                m, nn, got = rec.call("do_classify", C.do_classify, T, X, Y, **kw)
                            else:
                                m, nn = rec.call("make_classifier", C.make_classifier, X, Y, **kw)
                                got, _ = rec.call("classify_any", C.classify_any, m, T, X, nn, Y)
                        b = np.array(mixed) if bc >= n else np.concatenate(dr.picked).astype(int)
                        rec.state((json.dumps(case), lab, bc, loss, kd, entry))
                        if len(sc.log) != 1:
                            rec.fail("do_classify.optimizer-calls", str(len(sc.log))); return
                        if sorted(set(b.tolist()) - set(mixed)):
                            rec.fail("do_classify.batch", f"{b.tolist()} for mixed {mixed}"); return
                        check_model(rec, "classify", m, st, start_sval(st), f"{kd}")
                        if entry == "make" or bc != n:
                            check_objective(rec, "classify", sc, 0, st0, w, loss, b, w.Y)
                            check_index(rec, "classify", nn, w)
                        want, bug, _, _ = predict(w, [st], [start_sval(st)], w.Y)
                        if not judge(rec, "do_classify", got, want, bug, f"labels {lab} answers {a}"):
                            return


def run_draws(case, rec, C):
    """every balanced batch the random source can answer"""
    st0 = UNI[case["m"]]
    c, n, kk = case["c"], 8, 3
    w = World(n, 2, kk, 3, c)
    a = answer_of(st0, ["interior"] * 4)
    st = answered(st0, a)
    for lab in LAB[c]:
        lab = lab[:n]
        w.Y = onehot(lab, c, 0)
        mixed = mixed_points(w, lab)
        for bc in (c, 2 * c):
            if bc >= n:
                continue

            def go(script):
                sc = Script([vals_of(st0)], [a])
                import numpy.random as R
                log = []
                real, rperm = R.choice, R.permutation

                def choice(*x, **k):
                    log.append(real(*x, **k)); return log[-1]

                def perm(*x, **k):
                    out = rperm(*x, **k); log.append(out[:bc // c]); return out
                with seams.patched(choice=choice, permutation=perm), sc.on("scipy"):
                    m, nn, got = rec.call("do_classify", C.do_classify, A(w.T), A(w.X), A(w.Y), nn_count=kk, batch_count=bc, opt_fn=opt_of("scipy"), k_kwargs=kw_of(st0), nn_kwargs=dict(n_jobs=1))
                b = np.concatenate(log).astype(int)
                rec.state((case["m"], lab, bc, tuple(b.tolist())))
                check_model(rec, "draws", m, st, start_sval(st), str(script))
                for v in range(c):
                    have, offers = sum(lab[i] == v for i in b), sum(lab[i] == v for i in mixed)
                    if have != min(offers, bc // c):
                        rec.fail("draws.balance", f"{b.tolist()} labels {lab}")
                if len(b):
                    check_objective(rec, "draws", sc, 0, st0, w, "ce", b, w.Y)
                want, bug, _, _ = predict(w, [st], [start_sval(st)], w.Y)
                judge(rec, "do_classify", got, want, bug, f"labels {lab} batch {b.tolist()}")
            if not every_draw(go, 400):
                rec.note("batches beyond the first 400 draw sequences")


def run_multi(case, rec, C):
    """one model per class; free and fixed mixed"""
    c, n, kk = case["c"], 10, 3
    w = World(n, 2, kk, 5, c)
    base = dict(kernel="rbf", ls=0.8, lsb=c18.LB["length_scale"], noise=dict(t="homo", v=0.03), scale=dict(t="fixed", val=2.5))
    fx = dict(kernel="rbf", ls=0.6, noise=dict(t="homo", v=0.02), scale=dict(t="fixed"))
    sts0 = {"none": [dict(base, ls=0.8 + 0.1 * i) for i in range(c)], "all": [dict(fx, ls=0.6 + 0.1 * i) for i in range(c)], "some": [dict(base) if i % 2 else dict(fx) for i in range(c)]}[case["fixed"]]
    freed = [i for i in range(c) if c04.free_names(sts0[i])]
    for lab in LAB[c]:
        w.Y = onehot(lab, c, 2 if c == 2 else 0)
        mixed = mixed_points(w, lab)
        for bc in (2 * c, n - 1, n):
            for loss in ("mse", "lool", "default"):
                for kds in itertools.product(["interior", "above"], repeat=len(freed)) if loss == "mse" else [("interior",) * len(freed)]:
                    ans = [answer_of(sts0[i], [kd]) for i, kd in zip(freed, kds)]
                    sts = list(sts0)
                    for i, a in zip(freed, ans):
                        sts[i] = answered(sts0[i], a)
                    sc = Script([vals_of(sts0[i]) for i in freed] or [{}], ans or [{}])
                    kw = dict(nn_count=kk, batch_count=bc, opt_fn=opt_of(case["opt"]), nn_kwargs=dict(n_jobs=1))
                    if loss != "default":
                        kw["loss_fn"] = c07.loss_obj(loss)
                    X, Y, T = A(w.X), A(w.Y), A(w.T)
                    with seams.Draws(lambda N_, m, i: list(range(N_))[:m], bc // c) as dr, sc.on(case["opt"]):
                        m, nn, got = rec.call("do_classify.multi", C.do_classify, T, X, Y, k_kwargs=[kw_of(s) for s in sts0], **kw)
                        m2, nn2 = rec.call("make_multivariate_classifier", C.make_multivariate_classifier, X, Y, k_args=[kw_of(s) for s in sts0], **kw)
                    rec.state((json.dumps(case), lab, bc, loss, kds))
                    if not freed and (dr.calls or sc.log):
                        rec.fail("multi.fixed-trained", f"{dr.calls} {sc.log}"); return
                    if len(sc.log) != 2 * len(freed):
                        rec.fail("multi.optimizer-calls", f"{len(sc.log)} for {len(freed)}"); return
                    if freed and loss != "default":
                        b = np.array(mixed) if bc >= n else np.concatenate(dr.picked[:len(dr.picked) // 2]).astype(int)
                        for k_, i in enumerate(freed):
                            check_objective(rec, "multi", sc, k_, sts0[i], w, loss, b, w.Y[:, i])
                    for i in range(c):
                        check_model(rec, "multi", m.models[i], sts[i], start_sval(sts[i]), f"class {i}")
                    want, bug, _, _ = predict(w, sts, [start_sval(s) for s in sts], w.Y)
                    if not judge(rec, "do_classify.multi", got, want, bug, f"labels {lab}"):
                        return


def run_tuple(case, rec, C):
    """a tuple of specifications is documented like a list; a wrong number of them is refused"""
    w = World(8, 2, 3, 3, 2)
    w.Y = onehot((0, 1, 1, 0, 0, 1, 0, 1), 2, 0)
    for cnt in (1, 2, 3):
        for form in (list, tuple):
            rec.state((cnt, form is list)); rec.trace()
            try:
                C.do_classify(A(w.T), A(w.X), A(w.Y), nn_count=3, k_kwargs=form(kw_of(FIXED[0]) for _ in range(cnt)), nn_kwargs=dict(n_jobs=1))
                ok = True
            except ValueError:
                ok = False
            if ok != (cnt == 2):
                if form is tuple and cnt == 2:
                    rec.fail("do_classify:tuple-refused", "k_kwargs given as a tuple, which the signature and documentation allow, raises ValueError")
                else:
                    rec.fail("do_classify.response-count", f"{cnt} specifications for 2 responses: accepted={ok}")


def run_size(case, rec, C):
    from MuyGPyS.neighbors import NN_Wrapper
    from MuyGPyS.gp import MultivariateMuyGPS as MM
    n, kk, t, c = (case[x] for x in ("n", "kk", "t", "c"))
    w = World(n, 2, kk, t, c)
    for v in range(4):
        # classes by regions of the plane: unanimous inside, mixed at the borders
        s = (w.X[:, 0] + 0.3 * v * w.X[:, 1]) / 3.0
        lab = np.minimum((np.clip(s, 0, 0.999) * c).astype(int), c - 1)
        for e in range(3):
            Y = onehot(lab, c, e)
            for st in FIXED[:2]:
                for multi in (False, True):
                    sts = [st] * (c if multi else 1)
                    mod = MM(*[mk_args(s_) for s_ in sts]) if multi else mk_model(st)
                    nn = NN_Wrapper(A(w.X), kk, n_jobs=1)
                    want, bug, _, same = predict(w, sts, [start_sval(s_) for s_ in sts], Y)
                    got, _ = rec.call("classify_any", C.classify_any, mod, A(w.T), A(w.X), nn, A(Y))
                    rec.state((n, kk, t, c, v, e, st["kernel"], multi))
                    if not judge(rec, "classify_any", got, want, bug, f"{case}"):
                        return


def run_two(case, rec, C):
    from MuyGPyS.examples import two_class_classify_uq as U
    from MuyGPyS.neighbors import NN_Wrapper
    n, kk = case["n"], case["kk"]
    w = World(n, 2, kk, 5, 2)
    nn = NN_Wrapper(A(w.X), kk, n_jobs=1)
    for st in FIXED[:2]:
        mod = mk_model(st)
        for lab in itertools.product(range(2), repeat=n):
            Y = onehot(lab, 2, case["e"])
            want, _, wv, same = predict(w, [st], [start_sval(st)], Y)
            for q in ([0, 1, 2, 3, 4], [4, 1], [2]):
                mu, v, _ = rec.call("classify_two_class_uq", U.classify_two_class_uq, mod, A(w.T[q]), A(w.X), nn, A(Y))
                rec.state((n, kk, case["e"], st["kernel"], lab, tuple(q))); rec.trace(2)
                rec.outcome((tuple(same), lab))
                if not close6(mu, want[q]):
                    rec.fail("two.mean", f"labels {lab}: {diffmsg(mu, want[q])}"); return
                if not closev(v, wv[q, 0], rtol=1e-5, atol=1e-7) or any(N(v).ravel()[i] != 0 for i, x in enumerate(q) if same[x]):
                    rec.fail("two.variance", f"labels {lab}: {diffmsg(v, wv[q, 0])}"); return


CUTV = np.linspace(0.01, 20, 1999)


def ref_errors(mu, var, correct):
    m1, sd = mu[:, 1], np.sqrt(var)
    inside = (m1[None, :] - CUTV[:, None] * sd[None, :] < 0.0) & (m1[None, :] + CUTV[:, None] * sd[None, :] > 0.0)
    alpha = 1 - inside[:, ~correct].mean(1)
    beta = inside[:, correct].mean(1)
    return alpha, beta


def near_grid(mu, var):
    """some interval end falls within rounding of the midpoint at a grid point"""
    r = np.abs(mu[:, 1]) / np.sqrt(var)
    return bool((np.abs(r[:, None] - CUTV[None, :]) < 1e-7 * np.maximum(1, r[:, None])).any())


def run_interval(case, rec, C):
    from MuyGPyS.examples import two_class_classify_uq as U
    n, kk = 8, 3
    w = World(n, 2, kk, 1, 2, 0.07 * case["s"])
    st = FIXED[case["s"] % 2]
    mod = mk_model(st)
    for li, lab in enumerate([(0, 1, 0, 1, 1, 0, 0, 1), (1, 1, 0, 0, 1, 0, 1, 0), (0, 0, 0, 1, 0, 1, 1, 1), tuple((5 * case["s"] >> i) & 1 for i in range(8))]):
        if len(set(lab)) < 2:
            continue
        Y = onehot(lab, 2, 2)
        pm1 = 2 * np.array(lab) - 1
        for b in ([0, 1, 2, 3, 4, 5, 6, 7], [5, 2, 7, 0], [3, 1, 4]):
            b = np.array(b)
            nnb = w.own[b]
            mu, var = ref_post(st, ref_k(st, pair_diffs(w.X, nnb)), ref_k(st, cross_diffs(w.X[b], w.X, nnb)), Y[nnb], st["noise"], start_sval(st))
            correct = (2 * np.argmax(mu, 1) - 1) == pm1[b]
            if correct.all() or not correct.any():
                rec.note("all correct or all incorrect: error rates undefined, skipped")
                continue
            if near_grid(mu, var):
                rec.note("interval end at a grid point, skipped")
                continue
            al, be = ref_errors(mu, var, correct)
            seen = []

            def spy(i):
                def f(a, bt, cc, ic):
                    seen.append((np.array(a), np.array(bt), int(cc), int(ic)))
                    return i
                return f
            objs = [spy(0), spy(1998), spy(777)] + list(U.example_lambdas) + [lambda a, bt, cc, ic: np.argmin(3 * a + 0.5 * bt)]
            cut = N(rec.call("train_two_class_interval", U.train_two_class_interval, mod, I(b), I(nnb), A(w.X), A(Y), I(pm1), objs))
            rec.state((case["s"], lab, tuple(b.tolist()))); rec.trace(3)
            cc, ic = int(correct.sum()), int((~correct).sum())
            for a, bt, c_, i_ in seen:
                if not (np.allclose(a, al) and np.allclose(bt, be) and c_ == cc and i_ == ic):
                    rec.fail("interval.errors", f"labels {lab} batch {b.tolist()}: counts {c_},{i_} instead of {cc},{ic}; alpha {diffmsg(a, al)}; beta {diffmsg(bt, be)}"); return
            ws = [al + be, 2 * al + be, 4 * al + be, 10 * al + be, ic * al + cc * be, 3 * al + 0.5 * be]
            want = [CUTV[0], CUTV[1998], CUTV[777]] + [CUTV[int(np.argmin(x))] for x in ws]
            if cut.shape != (len(objs),):
                rec.fail("interval.shape", str(cut.shape)); return
            for j, (g, x) in enumerate(zip(cut, want)):
                # several grid points may attain the same minimum up to rounding
                k_ = int(np.argmin(np.abs(CUTV - g)))
                ok = abs(CUTV[k_] - g) < 1e-12 and (abs(g - x) < 1e-12 or (j >= 3 and abs(ws[j - 3][k_] - ws[j - 3].min()) < 1e-12))
                if not ok:
                    rec.fail("interval.cutoff", f"objective {j}: {g} instead of {x}"); return
            rec.outcome(tuple(np.round(cut, 3)))


def run_uq(case, rec, C):
    """every pattern of right/wrong answers and every mask"""
    from MuyGPyS.examples import two_class_classify_uq as U
    t = case["t"]
    for pred in itertools.product((0, 1), repeat=t):
        P_ = np.array([[0.7, 0.2] if p == 0 else [-0.1, 0.4] for p in pred])
        for lab in itertools.product((0, 1), repeat=t):
            L = onehot(lab, 2, sum(lab) % 3)
            masks = np.array(list(itertools.product((False, True), repeat=t)))
            acc, uq = rec.call("do_uq", U.do_uq, A(P_), A(L), masks)
            ok = np.array(pred) == np.array(lab)
            rec.state((t, pred, lab)); rec.trace(len(masks))
            if abs(acc - ok.mean()) > 1e-12 or uq.shape != (len(masks), 3):
                rec.fail("do_uq.accuracy", f"{acc} {uq.shape}"); return
            for m, row in zip(masks, uq):
                w = [m.sum(), ok[m].mean() if m.any() else 0.0, ok[~m].mean() if (~m).any() else row[2]]
                if not np.allclose(row, w, equal_nan=True):
                    rec.fail("do_uq.summary", f"{row} instead of {w} for mask {m}, correct {ok}"); return


def run_masks(case, rec, C):
    from MuyGPyS.examples import two_class_classify_uq as U
    g = [-0.9, -0.3, 0.2, 0.45, 0.55, 1.1]
    for t in (1, 2, 3):
        for mus in itertools.product(g, repeat=t):
            for vs in itertools.product([0.0, 0.04, 0.49, 1.0, 4.0] if t < 3 else [0.0, 0.04, 2.25], repeat=t):
                P_ = np.array([[1 - m, m] for m in mus]); v = np.array(vs)
                for mid in (0.0, 0.5):
                    cuts = np.array([0.13, 1.0, 3.7, 11.0])
                    for vv in (v, v[:, None]):
                        got = rec.call("make_masks", U.make_masks, A(P_), A(cuts), A(vv), mid)
                        rec.state((t, mus, vs, mid, vv.ndim)); rec.trace()
                        half = lambda x: np.array([[abs(m - mid) < c * x(s) for m, s in zip(mus, vs)] for c in cuts])  # noqa
                        if np.array_equal(got, half(np.sqrt)):
                            continue
                        if np.array_equal(got, half(lambda s: s)):
                            rec.fail(KNOWN_WIDTH, f"means {mus} variances {vs} mid {mid}: {got.tolist()}, the interval mean +- cutoff * standard deviation used when the cutoffs are trained gives {half(np.sqrt).tolist()}")
                            continue
                        rec.fail("make_masks.masks", f"means {mus} variances {vs} mid {mid}: {got.tolist()}"); return


def run_do_uq(case, rec, C):
    from MuyGPyS.examples import two_class_classify_uq as U
    st0 = FIXED[0] if case["fixed"] else UNI[case["m"]]
    n, kk, t = 12, 4, 7
    for salt in (0.0, 0.11, 0.23):
        w = World(n, 2, kk, t, 2, salt)
        for lab in [(0, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0), (1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 0, 1), (1, 1, 1, 1, 0, 0, 0, 1, 0, 1, 1, 0)]:
            w.Y = onehot(lab, 2, case["e"])
            pm1 = 2 * np.array(lab) - 1
            mixed = mixed_points(w, lab)
            for obc, ubc in ((12, 12), (6, 8), (20, 6)):
                a = answer_of(st0, ["interior"] * 4)
                st = answered(st0, a)
                sc = Script([vals_of(st0)], [a])
                seen = []

                def spy(al, be, cc, ic):
                    seen.append((np.array(al), np.array(be), int(cc), int(ic)))
                    return 40
                objs = [spy, lambda *x: 3, lambda *x: 1500] + list(U.example_lambdas)
                first = obc < n and bool(c04.free_names(st0))
                with seams.Draws(lambda N_, m, i: list(range(N_))[::-1][:m], lambda pool: (obc if first and len(dr.calls) < 2 else ubc) // 2) as dr, sc.on(case["opt"]):
                    m, nn, got, masks = rec.call("do_classify_uq", U.do_classify_uq, A(w.T), A(w.X), A(w.Y), nn_count=kk, opt_batch_count=obc, uq_batch_count=ubc, opt_fn=opt_of(case["opt"]),
                                                 uq_objectives=objs, k_kwargs=kw_of(st0), nn_kwargs=dict(n_jobs=1))
                rec.state((json.dumps(case), salt, lab, obc, ubc)); rec.trace(3)
                check_model(rec, "do_classify_uq", m, st, start_sval(st), f"{a}")
                want, _, wv, same = predict(w, [st], [start_sval(st)], w.Y)
                if not close6(got, want):
                    rec.fail("do_classify_uq.prediction", diffmsg(got, want)); return
                # the calibration batch is drawn last
                b = np.array(mixed) if n <= ubc else np.concatenate(dr.picked[-2:]).astype(int)
                nnb = w.own[b]
                mu, var = ref_post(st, ref_k(st, pair_diffs(w.X, nnb)), ref_k(st, cross_diffs(w.X[b], w.X, nnb)), w.Y[nnb], st["noise"], start_sval(st))
                correct = (2 * np.argmax(mu, 1) - 1) == pm1[b]
                if correct.all() or not correct.any() or near_grid(mu, var):
                    rec.note("calibration batch without both outcomes: skipped")
                    cuts = None
                else:
                    al, be = ref_errors(mu, var, correct)
                    if not seen or not (np.allclose(seen[0][0], al) and np.allclose(seen[0][1], be) and seen[0][2:] == (int(correct.sum()), int((~correct).sum()))):
                        rec.fail("do_classify_uq.errors", f"labels {lab} batch {b.tolist()}: {seen[0][2:] if seen else None}"); return
                    ws = [al + be, 2 * al + be, 4 * al + be, 10 * al + be, seen[0][3] * al + seen[0][2] * be]
                    cuts = [CUTV[int(np.argmin(x))] for x in ws]
                cuts = np.array([CUTV[40], CUTV[3], CUTV[1500]] + (cuts or []))
                mid = sum(ENC[case["e"]]) / 2
                masks = N(masks)
                if masks.shape != (len(objs), t):
                    rec.fail("do_classify_uq.mask-shape", str(masks.shape)); return
                d, s2 = np.abs(want[:, 1] - mid), wv[:, 0]
                right = d[None, :] < cuts[:, None] * np.sqrt(s2)[None, :]
                bug = d[None, :] < cuts[:, None] * s2[None, :]
                g = masks[:len(cuts)]
                if np.array_equal(g, right):
                    pass
                elif np.array_equal(g, bug):
                    rec.fail(KNOWN_WIDTH, f"labels {lab}: {g.astype(int).tolist()} instead of {right.astype(int).tolist()}")
                else:
                    rec.fail("do_classify_uq.masks", f"labels {lab}: {g.astype(int).tolist()} instead of {right.astype(int).tolist()}"); return
                rec.outcome(g.tobytes())
