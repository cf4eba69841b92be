"""Runs plans of configuration steps, each in a forked process that has not imported MuyGPyS yet.
usage: c25_child.py < plans.json > results.json"""
import json, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.environ["VERIF_SRC"])
import numpy as np
import scipy.optimize, scipy.special, sklearn.neighbors  # noqa
try:
    import torch
    torch.set_num_threads(1)
except ImportError:
    torch = None
try:
    import hnswlib  # noqa
    hnsw = True
except ImportError:
    hnsw = False


def arr(x):
    if torch is not None and isinstance(x, torch.Tensor):
        return ["torch", str(x.dtype).split(".")[-1], x.detach().numpy().astype(float).tolist()]
    if isinstance(x, (np.ndarray, np.generic)):
        return ["numpy", str(x.dtype), np.asarray(x).astype(float).tolist()]
    return [type(x).__name__, "", float(x)]


def probe(inp):
    """one pass through the library"""
    import MuyGPyS._src.math as mm
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import Parameter, VectorParameter, AnalyticScale, FixedScale, DownSampleScale
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise, HeteroscedasticNoise
    from MuyGPyS.neighbors import NN_Wrapper
    from MuyGPyS.optimize.batch import sample_batch, get_balanced_batch
    from MuyGPyS.gp.tensors import make_fast_predict_tensors, fast_nn_update, batch_features_tensor, make_heteroscedastic_tensor
    from MuyGPyS.optimize.loss import lool_fn, mse_fn, looph_fn, pseudo_huber_fn, cross_entropy_fn
    from MuyGPyS.optimize import L_BFGS_B_optimize
    from MuyGPyS import config
    MPI = config.state.backend == "mpi"
    out = {}
    out["array"], out["farray"], out["zeros"], out["ones"], out["full"], out["eye"], out["linspace"] = mm.array([1, 2]), mm.farray([0.5]), mm.zeros((2,)), mm.ones((2, 2)), mm.full((2,), 3), mm.eye(2), mm.linspace(0, 1, 3)
    out["array64"] = mm.array(np.array([1.0, 2.0]))
    out["array32"] = mm.array(np.array([1.0, 2.0], dtype=np.float32))
    out["i:iarray"], out["i:arange"], out["i:iarray32"] = mm.iarray([1, 2]), mm.arange(3), mm.iarray(np.array([1, 2], dtype=np.int32))
    f = lambda v: mm.array(np.array(v, dtype=float))  # noqa
    X, T, y = f(inp["X"]), f(inp["T"]), f(inp["y"])
    bi, nn, ti, tn = (mm.iarray(np.array(inp[k])) for k in ("bi", "nn", "ti", "tn"))
    out["features"] = batch_features_tensor(X, bi)
    for nm, st in inp["specs"].items():
        ls = st["ls"]
        d = Isotropy(l2 if st["kernel"] != "rbf" else F2, Parameter(ls, [0.1, 5.0])) if not isinstance(ls, list) else Anisotropy(l2 if st["kernel"] != "rbf" else F2, VectorParameter(*[Parameter(v, [0.1, 5.0]) for v in ls]))
        k = RBF(deformation=d) if st["kernel"] == "rbf" else Matern(smoothness=Parameter(st["nu"]), deformation=d)
        m = MuyGPS(kernel=k, noise=HomoscedasticNoise(st["noise"]["v"], [0.001, 1.0]), scale=AnalyticScale() if nm != "m25" else DownSampleScale(down_count=2, iteration_count=3))
        cr, pr, bt, nt = m.make_train_tensors(bi, nn, X, y)
        K, C = m.kernel(pr), m.kernel(cr)
        for a, v in dict(crosswise=cr, pairwise=pr, targets=bt, nn_targets=nt, kernel=K, crosscov=C, perturbed=m.noise.perturb(K), mean=m.posterior_mean(K, C, nt), variance=m.posterior_variance(K, C), **({} if MPI else dict(coeffs=m.fast_coefficients(K, nt)))).items():
            out[f"{nm}.{a}"] = v
        mu, var = m.posterior_mean(K, C, nt), m.posterior_variance(K, C)
        np.random.seed(3)
        m = m.optimize_scale(pr, nt)
        out[f"{nm}.scale"] = m.scale()
        out[f"{nm}.scaled-variance"] = m.posterior_variance(K, C)
        out[f"{nm}.lool"] = lool_fn(mu, bt, var, m.scale())
        out[f"{nm}.mse"] = mse_fn(mu, bt)
        np.random.seed(3)
        obj = L_BFGS_B_optimize.make_obj_fn(m, bt, nt, cr, pr, loss_fn=lool_fn)
        out[f"{nm}.objective"] = obj()
        cr, pr, nt = m.make_predict_tensors(ti, tn, T, X, y)
        out[f"{nm}.p-crosswise"], out[f"{nm}.p-pairwise"] = cr, pr
        out[f"{nm}.prediction"] = m.posterior_mean(m.kernel(pr), m.kernel(cr), nt)
    from MuyGPyS.gp.hyperparameter.experimental import sample_knots
    for fc, kc in ((1, 2), (2, 5)):
        np.random.seed(3)
        out[f"knots.{fc}.{kc}"] = sample_knots(fc, kc)
    h = HeteroscedasticNoise(f([[0.01, 0.02], [0.03, 0.04]]))
    out["hetero"] = h()
    if not MPI:
        pf, tf = make_fast_predict_tensors(nn_all(mm, inp), X, y)
        out["fast-pairwise"], out["fast-targets"] = pf, tf
        out["i:fast_nn_update"] = fast_nn_update(nn_all(mm, inp))
    lk = NN_Wrapper(X, len(inp["nn"][0]), n_jobs=1)
    raw = np.array(inp["X"], dtype=float), np.array(inp["T"], dtype=float)      # plain double precision arrays
    for nm, (xx, tt, kw) in dict(lib=(X, T, {}), raw=(*raw, {}), brute=(*raw, dict(algorithm="brute")), kd=(*raw, dict(algorithm="kd_tree")), man=(*raw, dict(metric="manhattan")),
                                 **({} if not hnsw else dict(hnsw=(*raw, dict(nn_method="hnsw", space="l2"))))).items():
        lk2 = NN_Wrapper(xx, len(inp["nn"][0]), **(kw if "nn_method" in kw else dict(kw, n_jobs=1)))
        i, dd = lk2.get_nns(tt)
        out[f"i:{nm}.get_nns"], out[f"{nm}.nns-dists"] = i, dd
        i, dd = lk2.get_batch_nns(bi)
        out[f"i:{nm}.get_batch_nns"], out[f"{nm}.batch-dists"] = i, dd
    # vectors of parameters, several responses, shear and nonstationary kernels
    out["vector"] = VectorParameter(Parameter(0.5), Parameter(0.7))()
    from MuyGPyS.gp import MultivariateMuyGPS
    from MuyGPyS.gp.deformation import DifferenceIsotropy
    from MuyGPyS.gp.kernels.experimental import ShearKernel
    from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam
    mm2 = MultivariateMuyGPS(*[dict(kernel=Matern(smoothness=Parameter(nu), deformation=Isotropy(l2, Parameter(1.0))), noise=HomoscedasticNoise(0.01), scale=AnalyticScale()) for nu in (0.5, mm.inf)])
    y2 = f([[v, 2 * v + 1] for v in inp["y"]])
    cr, pr, bt, nt = mm2.make_train_tensors(bi, nn, X, y2)
    mm2.optimize_scale(pr, nt)
    out["multi.mean"], out["multi.variance"], out["multi.targets"] = mm2.posterior_mean(pr, cr, nt), mm2.posterior_variance(pr, cr), nt
    if not MPI:
        pf, tf = make_fast_predict_tensors(nn_all(mm, inp), X, y2)
        out["multi.coeffs"] = mm2.fast_coefficients(l2(pf), tf)
        sk = ShearKernel(deformation=DifferenceIsotropy(F2, Parameter(1.1)))
        out["shear"] = sk(DifferenceIsotropy(F2, Parameter(1.1)).pairwise_tensor(X, nn))
        hk = RBF(deformation=Isotropy(F2, HierarchicalParam(X[:3], VectorParameter(*[Parameter(0.5 + 0.2 * j) for j in range(3)]), RBF(deformation=Isotropy(F2, Parameter(1.0))))))
        out["hierarchical"] = hk(Isotropy(F2, Parameter(1.0)).pairwise_tensor(X, nn), batch_features=batch_features_tensor(X, bi))
        if config.state.backend == "numpy":
            gk = Matern(smoothness=Parameter(0.8), deformation=Isotropy(l2, Parameter(1.0)))
            out["general-matern"] = gk(Isotropy(l2, Parameter(1.0)).pairwise_tensor(X, nn))
        from MuyGPyS.examples.regress import do_regress
        so = sys.stdout; sys.stdout = open(os.devnull, "w")
        try:
            _, _, mu, var = do_regress(T, X, y, nn_count=3, batch_count=5, k_kwargs=dict(kernel=RBF(deformation=Isotropy(F2, Parameter(0.8))), noise=HomoscedasticNoise(0.01), scale=AnalyticScale()), nn_kwargs=dict(n_jobs=1))
        finally:
            sys.stdout = so
        out["regress.mean"], out["regress.variance"] = mu, var
    np.random.seed(1)
    b, q = sample_batch(lk, 3, len(inp["X"]))
    out["i:sample_batch"], out["i:sample_batch_nn"] = b, q
    b, q = get_balanced_batch(lk, mm.iarray(np.arange(len(inp["X"])) % 2), 4)
    out["i:balanced"], out["i:balanced_nn"] = b, q
    return {k: arr(v) for k, v in out.items()}


def nn_all(mm, inp):
    return mm.iarray(np.array(inp["all"]))


def run(plan, inp):
    res = dict(log=[])
    for k in ("MUYGPYS_BACKEND", "MUYGPYS_FTYPE"):
        os.environ.pop(k, None)
    os.environ.update(plan.get("env", {}))
    sys.argv = ["prog"] + plan.get("argv", [])
    try:
        from MuyGPyS import config
    except BaseException as e:  # noqa
        res["stage"], res["error"] = "import", f"{type(e).__name__}: {e}"[:200]
        return res
    for st in plan.get("steps", []):
        try:
            if st[0] == "update":
                config.update(st[1], st[2])
            elif st[0] == "parse":
                config.parse_flags_with_absl()
            res["log"].append(None)
        except BaseException as e:  # noqa
            res["log"].append(f"{type(e).__name__}: {e}"[:200])
    res["state"] = [config.state.backend, config.state.ftype]
    try:
        res["probe"] = probe(inp)
        res["stage"] = "ok"
    except BaseException as e:  # noqa
        import traceback
        res["stage"], res["error"] = "components", f"{type(e).__name__}: {e}"[:200]
        res["trace"] = traceback.format_exc()[-600:]
    return res


def main():
    job = json.load(sys.stdin)
    out = []
    for plan in job["plans"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(w, "w") as f:
                so = os.dup(1); os.dup2(2, 1)
                try:
                    txt = json.dumps(run(plan, job["input"]))
                except BaseException as e:  # noqa
                    txt = json.dumps(dict(stage="crash", error=repr(e)))
                f.write(txt)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            txt = f.read()
        os.waitpid(pid, 0)
        out.append(json.loads(txt) if txt else dict(stage="crash", error="no result"))
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
