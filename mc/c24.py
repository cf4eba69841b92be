"""C24: the held-out target is never seen. For every small training set (coinciding points included), algorithm and neighbor count,
each training target is changed in turn and the prediction, variance, scale contribution and objective term of every batch point may
change only where the definition lets them; the same through the training workflows with a scripted optimizer."""
import contextlib, copy, io, itertools
import seams
import numpy as np
from ref import *
import c04, c07, c18, c26

AN = dict(t="analytic")
HOM = dict(t="homo", v=0.04)
SPECS = [
    dict(kernel="rbf", ls=0.8, lsb=[0.2, 3.1], noise=HOM, scale=AN),
    dict(kernel="matern", nu=1.5, ls=0.9, lsb=[0.2, 3.1], noise=dict(t="homo", v=0.03, b=[0.001, 0.3]), scale=dict(t="analytic", iteration_count=3)),
    dict(kernel="matern", nu=0.5, ls=0.7, lsb=[0.2, 3.1], noise=HOM, scale=dict(t="fixed", val=2.0)),
    dict(kernel="rbf", ls=[0.8, 1.4], lsb=[[0.2, 3.0], "fixed"], noise=HOM, scale=AN, **{"def": "aniso"}),
    dict(kernel="matern", nu=2.5, ls=0.9, lsb=[0.2, 3.1], noise=HOM, scale=dict(t="down", down_count=2, iteration_count=2)),
]
LOSSES = ["mse", "lool", "looph", "ph", "lool_unscaled"]
ALGS = [dict(nn_method="exact", algorithm="ball_tree"), dict(nn_method="exact", algorithm="kd_tree", leaf_size=1), dict(nn_method="exact", algorithm="brute"),
        dict(nn_method="hnsw", space="l2", ef_construction=100, M=16)]
SHIFT = 37.0


def cases(tier, env):
    th = tier == "thorough"
    out = []
    for f, vals_, n in ((1, 3, 4), (1, 2, 5), (2, 2, 4), (1, 4, 4), (1, 3, 5), (2, 2, 5)) + (((1, 4, 5), (2, 3, 4), (1, 3, 6)) if th else ()):
        first = list(itertools.product(range(vals_), repeat=f * 2))
        for pre in first:
            for k in range(1, n):
                out.append(dict(k="lattice", f=f, v=vals_, n=n, pre=list(pre), kk=k))
    for n, kk in ((12, 3), (12, 11), (25, 5), (25, 12), (60, 30), (130, 4), (260, 3), (520, 2), (1030, 2)) + (((130, 8), (130, 50)) if th else ()):
        for dup in (0, 1, 2, n):
            for m in range(len(SPECS)):
                out.append(dict(k="ladder", n=n, kk=kk, dup=dup, m=m))
    for m in range(len(SPECS)):
        for opt in ("scipy", "bayes"):
            for dup in (0, 2, 14):
                for loss in LOSSES:
                    out.append(dict(k="flow", m=m, opt=opt, dup=dup, loss=loss, n=14, kk=3, bc=5))
        for opt, dup, loss, bc in itertools.product(("scipy", "bayes"), (0, 2, 14), LOSSES[:2], (1, 13, 14, 15, 100)):
            out.append(dict(k="flow", m=m, opt=opt, dup=dup, loss=loss, n=14, kk=3, bc=bc))
        for dup in (0, 2, 14):
            for bc in (13, 14, 40):
                out.append(dict(k="mini", m=m, dup=dup, n=14, kk=3, bc=bc))
            out.append(dict(k="multi", m=m, dup=dup, n=14, kk=3, bc=14))
            out.append(dict(k="mini", m=m, dup=dup, n=14, kk=3, bc=5))
            out.append(dict(k="multi", m=m, dup=dup, n=14, kk=3, bc=5))
    for f, v, n in ((1, 3, 4), (1, 2, 5), (2, 2, 4)) + (((1, 3, 5), (1, 4, 4)) if th else ()):
        for kk in range(1, n):
            out.append(dict(k="batches", f=f, v=v, n=n, kk=kk, pre=[]))
    for n, kk in ((12, 3), (12, 11), (40, 7), (101, 10)):
        for dup in (0, 1, n):
            out.append(dict(k="batches", n=n, kk=kk, dup=dup))
    out += with_layouts([dict(k="ladder", n=12, kk=3, dup=2, m=0), dict(k="flow", m=0, opt="scipy", dup=2, loss="lool", n=14, kk=3, bc=5)])
    return out


def draws(pool, m, i):
    return [(j + i) % pool for j in range(m)]


def terms(rec, m, st, X, y, i, nn, loss):
    """everything training computes for the single batch point i"""
    cr, pr, bt, nt = rec.call("make_train_tensors", m.make_train_tensors, I([i]), I(nn[None]), A(X), A(y))
    K, C = m.kernel(pr), m.kernel(cr)
    mu = float(np.ravel(N(rec.call("posterior_mean", m.posterior_mean, K, C, nt)))[0])
    v = float(np.ravel(N(rec.call("posterior_variance", m.posterior_variance, K, C)))[0])
    from MuyGPyS.optimize import L_BFGS_B_optimize
    with seams.Draws(draws, st["scale"].get("down_count")):
        obj = rec.call("make_obj_fn", L_BFGS_B_optimize.make_obj_fn, m, bt, nt, cr, pr, loss_fn=c07.loss_obj(loss))
        val = float(np.ravel(N(rec.call("objective", obj, length_scale=0.8) if st.get("def") != "aniso" else rec.call("objective", obj, length_scale0=0.8)))[0])
    with seams.Draws(draws, st["scale"].get("down_count")):
        m2 = mk_model(st)
        m2 = rec.call("optimize_scale", m2.optimize_scale, pr, nt)
        s = float(np.ravel(N(m2.scale()))[0])
    return mu, v, s, val


def predicted(st, X, y, i, nn, loss):
    """the reference, with the objective at length scale 0.8"""
    nn = nn[None]
    Kin, Kc = ref_k(st, pair_diffs(X, nn)), ref_k(st, cross_diffs(X[[i]], X, nn))
    mu, v = ref_post(st, Kin, Kc, y[nn], st["noise"])
    return float(mu[0, 0]), None


def points(case, rest):
    f, n = case["f"], case["n"]
    flat = list(case["pre"]) + list(rest)
    return np.array(flat, float).reshape(n, f)


def eqv(a, b):
    return abs(a - b) <= 1e-10 * max(1.0, abs(a)) or (a != a and b != b)


def allowed(rec, sig, base, new, i, j, nn, where):
    rec.trace()
    ok = True
    inn = j in nn
    if not eqv(base[0], new[0]) and not inn:
        rec.fail(f"{sig}.prediction-sees-{'own' if i == j else 'foreign'}-target", where); ok = False
    if not eqv(base[1], new[1]):
        rec.fail(f"{sig}.variance-sees-targets", where); ok = False
    if not eqv(base[2], new[2]) and not inn:
        rec.fail(f"{sig}.scale-sees-{'own' if i == j else 'foreign'}-target", where); ok = False
    if not eqv(base[3], new[3]) and not inn and i != j:
        rec.fail(f"{sig}.objective-sees-foreign-target", where); ok = False
    return ok


def sweep(rec, sig, m, st, X, y, nns, losses, where, idx=None):
    n = len(X)
    for i in range(n) if idx is None else idx:
        nn = nns[i]
        loss = losses[i % len(losses)]
        if st["scale"]["t"] == "down" and len(nn) < 3:
            st = dict(st, scale=AN); m = mk_model(st)
        base = terms(rec, m, st, X, y, i, nn, loss)
        mu, _ = predicted(st, X, y, i, nn, loss)
        rec.trace()
        if abs(base[0] - mu) > 1e-6 * max(1, abs(mu)):
            rec.fail(f"{sig}.prediction", f"{base[0]} instead of {mu}; {where} point {i} neighbors {nn}")
            return
        for j in range(n):
            y2 = y.copy(); y2[j] += SHIFT
            new = terms(rec, m, st, X, y2, i, nn, loss)
            rec.state((where, i, j))
            if not allowed(rec, sig, base, new, i, j, nn, f"point {i} (neighbors {nn.tolist()}), target {j} changed; {where}"):
                return
            rec.outcome((round(base[0], 6), j in nn, i == j))


def run(case, rec):
    globals()["run_" + case["k"]](case, rec)


def lookup(rec, X, k, alg):
    from MuyGPyS.neighbors import NN_Wrapper
    kw = dict(ALGS[alg])
    if kw["nn_method"] == "exact":
        kw["n_jobs"] = 1
    return rec.call("NN_Wrapper", NN_Wrapper, A(X), k, **kw)


def own(rec, sig, X, k, alg, where):
    """neighbor lists of every training point as the library's index reports them"""
    lk = lookup(rec, X, k, alg)
    nn = N(rec.call("get_batch_nns", lk.get_batch_nns, I(range(len(X))))[0])
    rec.trace()
    for i in range(len(X)):
        if i in nn[i].tolist() or len(set(nn[i].tolist())) != k:
            rec.fail(f"{sig}.lists-itself", f"point {i} has neighbors {nn[i].tolist()}; {where}")
            return None
    return nn


def run_lattice(case, rec):
    f, v, n, k = case["f"], case["v"], case["n"], case["kk"]
    y = vals(n, 1)[:, 0]
    c = 0
    for rest in itertools.product(range(v), repeat=f * (n - 2)):
        X = points(case, rest)
        c += 1
        for alg in range(len(ALGS)):
            st = SPECS[c % len(SPECS)]
            if st.get("def") == "aniso" and f == 1:
                st = SPECS[0]
            where = f"set {X.tolist()} {ALGS[alg]}"
            nns = own(rec, "batch-neighbors", X, k, alg, where)
            if nns is None:
                return
            # different batch: same lists however they are asked for
            if alg == c % 4:
                sweep(rec, "lattice", mk_model(st), st, X, y, nns, LOSSES[c % 5:] + LOSSES[: c % 5], where)
                if rec.fails:
                    return


def run_batches(case, rec):
    """no sampler, whatever it is asked for and whatever the random source answers, lists a batch point as its own neighbor, and the
    tensors training is given hold the targets of the listed neighbors and the batch points"""
    import MuyGPyS.optimize.batch as B
    n, kk = case["n"], case["kk"]
    sets = [dup_world(n, kk, case["dup"])[0]] if "dup" in case else [np.array(p, float).reshape(n, case["f"]) for p in itertools.product(range(case["v"]), repeat=case["f"] * n)]
    y = vals(n, 1)[:, 0]
    m = mk_model(SPECS[0])
    labs = [np.arange(n) % c for c in (2, 3)] + [np.where(np.arange(n) < n // 2, 1, -1)]
    for ci, X in enumerate(sets):
        alg = ci % 3
        lk = lookup(rec, X, kk, alg)
        calls = []
        for bc in (1, 2, n - 1, n, n + 1, 3 * n):
            for sh in (0, 1, n - 2):
                calls.append(("sample_batch", bc, sh, (bc, n)))
        for li, lab in enumerate(labs):
            calls.append(("full_filtered_batch", 0, 0, (I(lab),)))
            for bc in (len(set(lab.tolist())), n - 1, n, 2 * n):
                for sh in (0, 1):
                    calls.append(("sample_balanced_batch", bc, sh, (I(lab), bc)))
                    calls.append(("get_balanced_batch", bc, sh, (I(lab), bc)))
        for nm, bc, sh, args in calls:
            with seams.Draws(lambda pool, q, i: [(j + sh) % pool for j in range(q)]):
                bi, nn = rec.call(nm, getattr(B, nm), lk, *args)
            b_, nn_ = N(bi), N(nn)
            rec.state((json.dumps(case), ci, nm, bc, sh)); rec.trace()
            where = f"{nm} {bc} draw {sh} set {X.tolist() if n < 10 else n} neighbors {nn_.tolist() if n < 10 else ''}"
            if nn_.shape != (len(b_), kk) or (nn_ == b_[:, None]).any():
                rec.fail(f"{nm}.lists-itself", f"batch {b_.tolist()}; {where}"[:800]); return
            if any(len(set(r)) != kk for r in nn_.tolist()):
                rec.fail(f"{nm}.repeats", where[:800]); return
            if len(b_) and nm == "sample_batch":
                cr, pr, bt, nt = rec.call("make_train_tensors", m.make_train_tensors, bi, nn, A(X), A(y))
                if not np.allclose(N(bt).ravel(), y[b_]) or not np.allclose(N(nt).reshape(nn_.shape), y[nn_]):
                    rec.fail("make_train_tensors.targets", where[:800]); return


def dup_world(n, kk, dup, f=2):
    """dup copies of points: 2 pairs, or all points equal in couples"""
    w = c18.World(n, f, kk, 3, 0)
    X = w.X.copy()
    if dup == n:
        X[n // 2:] = X[: n - n // 2]
    else:
        for d in range(dup):
            X[n - 1 - d] = X[d]
    return X, vals(n, 1)[:, 0]


def run_ladder(case, rec):
    n, kk = case["n"], case["kk"]
    X, y = dup_world(n, kk, case["dup"])
    st = SPECS[case["m"]]
    for alg in range(len(ALGS)):
        where = f"{case} {ALGS[alg]}"
        nns = own(rec, "batch-neighbors", X, kk, alg, where)
        if nns is None:
            return
    sweep(rec, "ladder", mk_model(st), st, X, y, nns, LOSSES, where, idx=range(n) if n <= 12 else [0, n // 2, n - 1])


def batch_of(n, bc):
    """the batch the scripted random source yields: the whole set in order when it is not larger than the batch count"""
    return list(range(n)) if bc >= n else ([n - 1, 0, 5, n // 2, 3] + [i for i in range(n) if i not in (n - 1, 0, 5, n // 2, 3)])[:bc]


def ref_loss(st, X, y, b, nn, loss):
    Kin, Kc = ref_k(st, pair_diffs(X, nn)), ref_k(st, cross_diffs(X[b], X, nn))
    mu, v = ref_post(st, Kin, Kc, y[nn], st["noise"])
    s = c18.rscale(st, Kin, y[nn])
    return -c07.rloss(loss, mu[:, 0], y[b], v, s, {}), mu[:, 0], v, s


def capture(rec, case, X, y, b, st, multi=None):
    """the objective(s) and scale the one-call workflow trains with"""
    from MuyGPyS.examples import regress as R
    sc = c18.Script([c18.vals_of(s) for s in (multi or [st])], [c18.vals_of(s) for s in (multi or [st])])
    n, bc = case["n"], case["bc"]
    kw = dict(nn_count=case["kk"], batch_count=bc, loss_fn=c07.loss_obj(case["loss"]), opt_fn=c18.opt_of(case.get("opt", "scipy")),
              **(dict(k_args=[mk_args(s) for s in multi]) if multi else dict(k_kwargs=mk_args(st))), nn_kwargs=dict(n_jobs=1))
    with seams.Draws(lambda pool, m, i: b if (pool, m) == (n, bc) else list(range(m)), c18.hint_of(n, bc, *(multi or [st]))), sc.on(case.get("opt", "scipy")), contextlib.redirect_stdout(io.StringIO()):
        m, lk = rec.call("make_multivariate_regressor" if multi else "make_regressor", R.make_multivariate_regressor if multi else R.make_regressor, A(X), A(y), **kw)
        objs = [e[3] for e in sc.log]
        vals_ = [o(c18.vals_of(s)) for o, s in zip(objs, [s for s in (multi or [st]) if c04.free_names(s)])]
    return vals_, m, lk


def free_cur(st):
    return {n: v for n, v in c18.vals_of(st).items() if n in dict(c04.free_names(st))}


def run_flow(case, rec):
    st = SPECS[case["m"]]
    n, kk, bc = case["n"], case["kk"], case["bc"]
    X, y = dup_world(n, kk, case["dup"])
    b = batch_of(n, bc)
    (v0,), m, lk = capture(rec, case, X, y, b, st)
    nn = N(lk.get_batch_nns(I(b))[0])
    for i, row in zip(b, nn.tolist()):
        if i in row:
            rec.fail("flow.lists-itself", f"{i} {row}"); return
    want, mu, v, s = ref_loss(st, X, y, np.array(b), nn, case["loss"])
    rec.trace()
    if abs(v0 - want) > 1e-5 * max(1, abs(want)):
        rec.fail("flow.objective", f"{v0} instead of {want}"); return
    used = set(b) | set(nn.ravel().tolist())
    s0 = float(np.ravel(N(m.scale()))[0])
    for j in range(n):
        y2 = y.copy(); y2[j] += SHIFT
        (v1,), m1, _ = capture(rec, case, X, y2, b, st)
        rec.state((json.dumps(case), j)); rec.trace()
        w1, _, _, _ = ref_loss(st, X, y2, np.array(b), nn, case["loss"])
        if j not in used and not eqv(v0, v1):
            rec.fail("flow.objective-sees-foreign-target", f"target {j}: {v0} -> {v1}"); return
        if abs(v1 - w1) > 1e-5 * max(1, abs(w1)):
            rec.fail("flow.objective-after-change", f"target {j}: {v1} instead of {w1}"); return
        s1 = float(np.ravel(N(m1.scale()))[0])
        if j not in set(nn.ravel().tolist()) and not eqv(s0, s1):
            rec.fail("flow.scale-sees-held-out-target", f"target {j}: {s0} -> {s1}"); return
        rec.outcome((j in used, round(w1, 6)))


def run_multi(case, rec):
    base = SPECS[case["m"]]
    if base.get("def") == "aniso" or base["kernel"] == "rbf":
        multi = [base, dict(base, noise=dict(t="homo", v=0.06))]
    else:
        multi = [base, dict(SPECS[2], nu=base["nu"])]
    n, kk, bc = case["n"], case["kk"], case["bc"]
    X, _ = dup_world(n, kk, case["dup"])
    Y = vals(n, 2)
    b = batch_of(n, bc)
    case = dict(case, loss="lool")
    v0, m, lk = capture(rec, case, X, Y, b, None, multi)
    nn = N(lk.get_batch_nns(I(b))[0])
    used = set(b) | set(nn.ravel().tolist())
    for r in range(2):
        w, _, _, _ = ref_loss(multi[r], X, Y[:, r], np.array(b), nn, "lool")
        if abs(v0[r] - w) > 1e-5 * max(1, abs(w)):
            rec.fail("multi.objective", f"response {r}: {v0[r]} instead of {w}"); return
    for j in range(n):
        for q in range(2):
            Y2 = Y.copy(); Y2[j, q] += SHIFT
            v1, m1, _ = capture(rec, case, X, Y2, b, None, multi)
            rec.state((json.dumps(case), j, q)); rec.trace()
            for r in range(2):
                s0, s1 = (float(np.ravel(N(x.models[r].scale()))[0]) for x in (m, m1))
                if (r != q or j not in used) and not eqv(v0[r], v1[r]):
                    rec.fail("multi.objective-sees-foreign-target", f"response {r}, target {j},{q}"); return
                if (r != q or j not in set(nn.ravel().tolist())) and not eqv(s0, s1):
                    rec.fail("multi.scale-sees-held-out-target", f"response {r}, target {j},{q}"); return


def run_mini(case, rec):
    from MuyGPyS.optimize.experimental.chassis import optimize_from_tensors_mini_batch as go
    st = SPECS[case["m"]]
    n, kk, bc = case["n"], case["kk"], case["bc"]
    X, y = dup_world(n, kk, case["dup"])
    b = batch_of(n, bc)

    def train(y):
        bo = c26.Optimizer(lambda e: [])
        with seams.Draws(lambda pool, m, i: b if (pool, m) == (n, bc) else list(range(m))), seams.fake_bayes(bo), contextlib.redirect_stdout(io.StringIO()):
            m, lk, *_ = rec.call("mini_batch", go, mk_model(st), A(X), A(y), kk, bc, n, num_epochs=1)
            return float(np.ravel(N(bo.epochs[0]["f"](**free_cur(st))))[0]), m, lk
    v0, m, lk = train(y)
    nn = N(lk.get_batch_nns(I(b))[0])
    want, *_ = ref_loss(st, X, y, np.array(b), nn, "lool")
    if abs(v0 - want) > 1e-5 * max(1, abs(want)):
        rec.fail("mini.objective", f"{v0} instead of {want}"); return
    used = set(b) | set(nn.ravel().tolist())
    for j in range(n):
        y2 = y.copy(); y2[j] += SHIFT
        v1, m1, _ = train(y2)
        rec.state((json.dumps(case), j)); rec.trace()
        if j not in used and not eqv(v0, v1):
            rec.fail("mini.objective-sees-foreign-target", f"target {j}"); return
        if j not in set(nn.ravel().tolist()) and not eqv(float(np.ravel(N(m1.scale()))[0]), float(np.ravel(N(m.scale()))[0])):
            rec.fail("mini.scale-sees-held-out-target", f"target {j}"); return
        w1, *_ = ref_loss(st, X, y2, np.array(b), nn, "lool")
        if abs(v1 - w1) > 1e-5 * max(1, abs(w1)):
            rec.fail("mini.objective-after-change", f"target {j}: {v1} instead of {w1}"); return
