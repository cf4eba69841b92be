"""C16: the torch backend against the documented definitions: the enumerations of the other checks whose operations exist on both
backends are rerun here, under the torch backend, against the same reference model, plus whole pipelines, mixed input types and the
documented exclusions."""
import importlib, itertools
import seams
import numpy as np
from ref import *

SUBS = ["c01", "c02", "c03", "c05", "c07", "c08", "c09", "c12", "c13", "c20", "c21", "c22"]


def cases(tier, env):
    out = []
    for mod in SUBS:
        m = importlib.import_module(mod)
        for c in m.cases(tier, env):
            d = dict(k="sub", mod=mod, case=c)
            if "mem" in c:
                d["mem"] = c["mem"]
            out.append(d)
    for b, k, r in [(1, 1, 1), (1, 3, 2), (3, 3, 3), (4, 3, 2), (7, 5, 1), (17, 10, 3), (65, 33, 2)]:
        out.append(dict(k="pipe", b=b, kk=k, r=r))
    for m in range(5):
        out.append(dict(k="flows", m=m))
    out.append(dict(k="unsupported"))
    return out


def run(case, rec):
    if case["k"] != "sub":
        return globals()["run_" + case["k"]](case, rec)
    m = importlib.import_module(case["mod"])
    add = rec.state
    rec.state = lambda key: add((case["mod"], key))
    try:
        m.run(case["case"], rec)
    finally:
        del rec.state
        rec.fails = [(f"{case['mod']}:{s}", d) for s, d in rec.fails]


def run_pipe(case, rec):
    """index, tensors, kernel, objective, scale, prediction, fast prediction in one process, inputs as tensors"""
    import c18, c12, c07
    import torch
    b, kk, r = case["b"], case["kk"], case["r"]
    n = max(14, b + 3, kk + 3)
    w = c18.World(n, 2, kk, b, r)
    bi = (np.arange(b) * 5 + 2) % n if np.gcd(5, n) == 1 else np.arange(b)
    from MuyGPyS.neighbors import NN_Wrapper
    from MuyGPyS.gp.tensors import make_fast_predict_tensors, fast_nn_update
    from MuyGPyS.optimize import L_BFGS_B_optimize
    lk = rec.call("NN_Wrapper", NN_Wrapper, A(w.X), kk, nn_method="exact", algorithm="ball_tree", n_jobs=1)
    i1, d1 = rec.call("get_nns", lk.get_nns, A(w.T))
    i2, d2 = rec.call("get_batch_nns", lk.get_batch_nns, I(bi))
    if not (np.array_equal(np.sort(N(i1), 1), np.sort(w.tn, 1)) and np.array_equal(np.sort(N(i2), 1), np.sort(w.own[bi], 1))):
        rec.fail("pipe.neighbors", f"{N(i1)} {N(i2)}"); return
    for j, st in enumerate(c18.FIXED + c18.UNI):
        if st["kernel"] == "matern" and st["nu"] not in (0.5, 1.5, 2.5, float("inf")):
            continue
        if st["scale"]["t"] == "down" and kk < 3:
            continue
        rec.state((json.dumps(case), j))
        m = rec.call("construct", mk_model, st)
        cr, pr, bt, nt = rec.call("make_train_tensors", m.make_train_tensors, I(bi), i2, A(w.X), A(w.Y))
        nn = N(i2)
        Kin, Kc, yn, y = w_train(w, st, bi, nn)
        K, C = rec.call("kernel", m.kernel, pr), rec.call("kernel", m.kernel, cr)
        mu, v = ref_post(st, Kin, Kc, yn, st["noise"])
        sv = c18.start_sval(st)
        got = [("kernel", K, Kin), ("crosscov", C, Kc), ("mean", m.posterior_mean(K, C, nt), mu), ("variance", m.posterior_variance(K, C), v * sv)]
        if r == 1:
            with seams.Draws(lambda p, q, i: list(range(q))):
                m2 = rec.call("optimize_scale", mk_model(st).optimize_scale, pr, nt[..., 0])
            got.append(("scale", m2.scale().reshape(-1)[0] if hasattr(m2.scale(), "reshape") else m2.scale(), np.array(c18.rscale(st, Kin, yn[..., 0]))))
            for loss in ("mse", "lool", "looph", "ph"):
                with seams.Draws(lambda p, q, i: list(range(q))):
                    obj = rec.call("make_obj_fn", L_BFGS_B_optimize.make_obj_fn, m, bt[:, 0], nt[..., 0], cr, pr, loss_fn=c07.loss_obj(loss))
                    o = rec.call("objective", obj)
                got.append((f"objective.{loss}", o.reshape(-1)[0], np.array(-c07.rloss(loss, mu[:, 0], y[:, 0], v, c18.rscale(st, Kin, yn[..., 0]) if loss in ("lool", "looph") else 1.0, {}))))
        wm, wv = w.post(st, sv, w.Y)
        cr, pr, nt = rec.call("make_predict_tensors", m.make_predict_tensors, I(np.arange(b)), i1, A(w.T), A(w.X), A(w.Y))
        tn = N(i1)
        K, C = m.kernel(pr), m.kernel(cr)
        got += [("predict.mean", m.posterior_mean(K, C, nt), wm.reshape(b, r)), ("predict.variance", m.posterior_variance(K, C), wv)]
        for nm, g, want in got:
            rec.trace()
            if not isinstance(g, torch.Tensor) and nm != "scale":
                rec.fail(f"pipe.{nm}.type", f"{type(g)} instead of a tensor")
            elif not close(N(g).reshape(np.shape(want)), want, rtol=1e-6, atol=1e-7):
                rec.fail(f"pipe.{nm}", f"specification {j}: {diffmsg(N(g), want)}"); return


def w_train(w, st, b, nn):
    return ref_k(st, pair_diffs(w.X, nn)), ref_k(st, cross_diffs(w.X[b], w.X, nn)), w.Y[nn], w.Y[b]


def run_flows(case, rec):
    """the one-call workflow with models that need no optimizer"""
    import c18
    from MuyGPyS.examples.regress import do_regress
    st = c18.FIXED[case["m"]]
    for n, kk, t, r in [(14, 3, 4, 1), (14, 3, 4, 2), (9, 1, 1, 1), (9, 4, 4, 4)]:
        w = c18.World(n, 2, kk, t, r)
        m, nn, mu, v = rec.call("do_regress", do_regress, A(w.T), A(w.X), A(w.Y), nn_count=kk, batch_count=5, k_kwargs=mk_args(st), nn_kwargs=dict(n_jobs=1))
        wm, wv = w.post(st, c18.start_sval(st), w.Y)
        rec.state((case["m"], n, r)); rec.trace(2)
        if not close(N(mu).reshape(t, r), wm.reshape(t, r), rtol=1e-6, atol=1e-7):
            rec.fail("do_regress.mean", diffmsg(mu, wm))
        if not close(v, wv, rtol=1e-6, atol=1e-7):
            rec.fail("do_regress.variance", diffmsg(v, wv))


def run_unsupported(case, rec):
    """what torch lacks raises instead of answering something else"""
    import c06, c18
    from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
    for st in c18.UNI:
        if st["kernel"] == "matern" and "nub" in st:
            continue
        m = mk_model(st)
        w = c18.World(14, 2, 3, 4, 0)
        b = np.array([2, 9, 4])
        cr, pr, bt, nt = m.make_train_tensors(I(b), I(w.own[b]), A(w.X), A(w.Y))
        for o in (L_BFGS_B_optimize, Bayes_optimize):
            rec.trans(); rec.trace(); rec.state((json.dumps(st), str(o)))
            try:
                o(m, bt, nt, cr, pr)
                rec.fail("unsupported.optimizer", f"{o} returned")
            except NotImplementedError:
                pass
    D = A(np.abs(pts(6, 2)).reshape(1, 6, 2).sum(-1))
    for nu in (0.3, 1.1, 2.2, 3.5, 1.4999, 0.51):
        for nub in ("fixed", [0.1, 5.0]):
            m = mk_model(dict(kernel="matern", nu=nu, nub=nub, ls=0.8))
            rec.trans(); rec.trace(); rec.state((nu, repr(nub)))
            try:
                m.kernel(D)
                rec.fail("unsupported.smoothness", f"nu={nu} returned")
            except NotImplementedError:
                pass
