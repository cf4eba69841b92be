"""Programs run on every rank (virtual or real) for C14/C15. run(case, rank, size) -> dict of plain arrays and floats.
Serial execution of the same program on the numpy backend (rank 0 of 1) is the oracle."""
import os
import numpy as np
import ref
from ref import mk_model, pts, vals, nbrs

MPI_ON = os.environ.get("MUYGPYS_BACKEND") == "mpi"


def specs():
    iso = dict(kernel="matern", nu=1.5, metric="l2", ls=0.8, noise=dict(t="homo", v=1e-3))
    rbf = dict(kernel="rbf", metric="F2", ls=1.3, noise=dict(t="homo", v=1e-2))
    ani = dict(kernel="matern", nu=2.5, metric="l2", ls=[0.7, 1.4], noise=dict(t="homo", v=1e-3))
    dif = dict(kernel="matern", nu=0.5, metric="l2", ls=0.9, noise=dict(t="null"))
    dif["def"] = "diso"
    ani["def"] = "aniso"
    gen = dict(kernel="matern", nu=0.8, metric="l2", ls=0.6, noise=dict(t="homo", v=1e-3))
    return dict(iso=iso, rbf=rbf, ani=ani, dif=dif, gen=gen)


def model_of(c):
    s = dict(specs()[c["spec"]])
    s["scale"] = c.get("scale", {"t": "fixed"})
    if c.get("free"):
        lo, hi = [0.05, 3.0]
        if "ls" in c["free"]:
            s["lsb"] = [lo, hi]
        if "nu" in c["free"]:
            s["nub"] = [0.3, 3.0]
        if "noise" in c["free"]:
            s["noise"] = dict(t="homo", v=c.get("nv", 1e-3), b=[1e-5, 1e-1])
        if c.get("prompt"):
            s["ls"] = c["prompt"] if s.get("def", "iso") != "aniso" else [c["prompt"]] * 2
            if "nu" in c["free"]:
                s["nu"] = c["prompt"]
            if "noise" in c["free"]:
                s["noise"]["v"] = c["prompt"]
    return mk_model(s)


def data(c, rank):
    n, b, k, f, r = c.get("n", 14), c["b"], c.get("k", 3), c.get("f", 2), c.get("r", 0)
    X = pts(n, f)
    Y = vals(n, max(r, 1))
    Y = Y if r else Y[:, 0]
    idx = (np.arange(b) * 5 + 2) % n if b <= n else np.arange(b) % n
    nn = nbrs(X, X[idx], k, skip=idx)
    Q = pts(max(b, 1), f, salt=0.37)[:b]
    qn = nbrs(X, Q, k)
    if c.get("where", "all") == "root" and rank != 0:
        return None, None, None, None, None, None
    return X, Y, idx, nn, Q, qn


def chunk(x):
    """the rank's own rows of a replicated array, through the library"""
    from MuyGPyS._src.mpi_utils import _consistent_chunk_tensor
    return _consistent_chunk_tensor(x)


def part(c, x, rank):
    """an arbitrary partition of the rows over the ranks"""
    sizes = c["parts"]
    if not MPI_ON:
        return x
    o = sum(sizes[:rank])
    return x[o:o + sizes[rank]]


def params(m):
    names, p, bnd = m.get_opt_params()
    out = {}
    hp = m.kernel._hyperparameters
    for k in sorted(hp):
        out["hp:" + k] = float(hp[k]())
    out["noise"] = float(m.noise()) if hasattr(m.noise, "val") or type(m.noise).__name__.startswith("Homo") else 0.0
    out["scale"] = float(m.scale())
    return out


def p_tensors(c, rank, size):
    m = model_of(c)
    X, Y, idx, nn, Q, qn = data(c, rank)
    d = m.kernel.deformation
    out = {}
    what = c["what"]
    if what == "pair":
        out["chunk:pair"] = d.pairwise_tensor(X, nn)
    elif what == "cross":
        out["chunk:cross"] = d.crosswise_tensor(Q, X, None if Q is None else np.arange(len(Q)), qn)
    elif what == "feat":
        from MuyGPyS.gp.tensors import batch_features_tensor
        out["chunk:feat"] = batch_features_tensor(X, idx)
    elif what == "hetero":
        from MuyGPyS.gp.tensors import make_heteroscedastic_tensor
        nz = None if X is None else vals(len(X), 1)[:, 0] ** 2
        out["chunk:hetero"] = make_heteroscedastic_tensor(nz, nn)
    elif what == "serial":     # chunking switched off: every rank computes the whole tensor
        out["same:pair"] = d.pairwise_tensor(X, nn, disable_mpi=True)
        out["same:cross"] = d.crosswise_tensor(Q, X, np.arange(len(Q)), qn, disable_mpi=True)
        a = m.make_train_tensors(idx, nn, X, Y, disable_mpi=True)
        for i, x in enumerate(a):
            out[f"same:train{i}"] = x
        a = m.make_predict_tensors(np.arange(len(Q)), qn, Q, X, Y, disable_mpi=True)
        for i, x in enumerate(a):
            out[f"same:pred{i}"] = x
    elif what == "rechunk":
        out["chunk:x"] = chunk(X)
    elif what == "roundtrip":      # gathering the pieces again gives every rank the serial array
        from MuyGPyS._src.mpi_utils import _consistent_unchunk_tensor
        X, Y, idx, nn, Q, qn = data(dict(c, where="all"), rank)
        for nme, x in (("X", X), ("y", vals(len(X), 1)[:, 0]), ("nn", X[nn]), ("diff", X[nn][:, :, None, :] - X[nn][:, None, :, :])):
            out["chunk:" + nme] = chunk(x)
            out["same:" + nme] = _consistent_unchunk_tensor(chunk(x))
    return out


def p_unsup(c, rank, size):
    """operations documented as unsupported under MPI: they raise NotImplementedError or else agree with the serial ones"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    from MuyGPyS.gp.tensors import make_heteroscedastic_tensor, fast_nn_update
    X, Y, idx, nn, Q, qn = data(c, rank)
    out = {}

    def attempt(name, fn):
        try:
            out[name] = fn()
        except NotImplementedError:
            pass
    if c["what"] == "hetero":
        def go():
            h = make_heteroscedastic_tensor(vals(len(X), 1)[:, 0] ** 2 + 0.1, nn)
            mm = MuyGPS(kernel=model_of(c).kernel, noise=HeteroscedasticNoise(h))
            tr = mm.make_train_tensors(idx, nn, X, Y)
            K, C = mm.kernel(tr[1]), mm.kernel(tr[0])
            return mm.posterior_mean(K, C, tr[3])
        attempt("maybe:hmean", go)
    else:
        X = pts(c.get("n", 14), 2)
        Y, nn = vals(len(X), 1)[:, 0], nbrs(X, X, c.get("k", 3), skip=np.arange(len(X)))
        attempt("maybe:fast_nn", lambda: fast_nn_update(nn))
        m = model_of(c)

        def fast():
            from MuyGPyS.gp.tensors import make_fast_predict_tensors
            pw, tf = make_fast_predict_tensors(nn, X, Y)
            pw = m.kernel.deformation.metric(pw)
            return m.fast_coefficients(m.kernel(pw), tf)
        attempt("maybe:coeffs", fast)
    return out


def p_shear(c, rank, size):
    """shear kernels on the rank's own rows"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import DifferenceIsotropy, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels.experimental import ShearKernel, ShearKernel2in3out
    from MuyGPyS.gp.noise import HomoscedasticNoise
    two = c["two"]
    k = (ShearKernel2in3out if two else ShearKernel)(deformation=DifferenceIsotropy(F2, ScalarParam(0.9)))
    m = MuyGPS(kernel=k, noise=HomoscedasticNoise(1e-2))
    X, Y, idx, nn, Q, qn = data(c, rank)
    y = None if X is None else vals(len(X), 3)
    cr, pr, bt, nt = m.make_train_tensors(idx, nn, X, y)
    if two:
        nt = nt[:, :, 1:]
    Kin = m.kernel(pr)
    Kc = m.kernel(cr[..., None, :], force_Kcross=True)[..., 0] if two else m.kernel(cr[..., None, :], adjust=False)[..., 0]
    b, nr, kk = len(cr), (2 if two else 3), c.get("k", 3)
    Kin = Kin.reshape(b, nr * kk, nr * kk)
    Kc = Kc.reshape(b, nr * kk, 3)
    nt = nt.swapaxes(-2, -1).reshape(b, nr * kk)
    return {"chunk:Kin": Kin, "chunk:Kc": Kc, "chunk:targets": bt,
            "chunk:mean": m.posterior_mean(Kin, Kc, nt), "chunk:var": m.posterior_variance(Kin, Kc)}


def mmodel(c):
    from MuyGPyS.gp import MultivariateMuyGPS
    s = specs()
    margs = []
    for i in range(c["r"]):
        t = dict(s[c["spec"]])
        if not isinstance(t["ls"], list):
            t["ls"] = t["ls"] * (1 + 0.3 * i)
        t["scale"] = c.get("scale", {"t": "fixed"})
        margs.append(ref.mk_args(t))
    return MultivariateMuyGPS(*margs)


def p_model(c, rank, size):
    """tensors, posterior, scale of a model on the rank's own rows"""
    multi = c.get("multi", False)
    m = mmodel(c) if multi else model_of(c)
    X, Y, idx, nn, Q, qn = data(c, rank)
    out = {}
    tr = m.make_train_tensors(idx, nn, X, Y)
    for nme, x in zip(("cross", "pair", "targets", "nn_targets"), tr):
        out["chunk:train_" + nme] = x
    pr = m.make_predict_tensors(None if Q is None else np.arange(len(Q)), qn, Q, X, Y)
    for nme, x in zip(("cross", "pair", "nn_targets"), pr):
        out["chunk:pred_" + nme] = x
    if c.get("scale"):
        if multi:
            m.optimize_scale(tr[1], tr[3])
            out["same:scale"] = np.array([float(q.scale()) for q in m.models])
        else:
            m.optimize_scale(tr[1], tr[3])
            out["same:scale"] = float(m.scale())
    if multi:
        out["chunk:mean"] = m.posterior_mean(pr[1], pr[0], pr[2])
        out["chunk:var"] = m.posterior_variance(pr[1], pr[0])
    else:
        Kin, Kc = m.kernel(pr[1]), m.kernel(pr[0])
        out["chunk:mean"] = m.posterior_mean(Kin, Kc, pr[2])
        out["chunk:var"] = m.posterior_variance(Kin, Kc)
    return out


def losses():
    from MuyGPyS.optimize.loss import cross_entropy_fn, mse_fn, lool_fn, lool_fn_unscaled, pseudo_huber_fn, looph_fn
    return dict(ce=cross_entropy_fn, mse=mse_fn, lool=lool_fn, lool_u=lool_fn_unscaled, ph=pseudo_huber_fn, looph=looph_fn)


def p_loss(c, rank, size):
    b, r = c["b"], c.get("r", 1)
    P, T = vals(b, r, salt=0.2), vals(b, r, salt=1.1)
    if c["loss"] == "ce":
        lab = np.arange(b) % r
        T = -np.ones((b, r))
        T[np.arange(b), lab] = 1.0
    if r == 1:
        P, T = P[:, 0], T[:, 0]
    V = 0.5 + vals(b, 1, salt=0.4)[:, 0] ** 2
    P, T, V = part(c, P, rank), part(c, T, rank), part(c, V, rank)
    fn = losses()[c["loss"]]
    bs = dict(boundary_scale=2.1) if b % 3 == 2 else {}
    if c["loss"] in ("mse", "ce"):
        v = fn(P, T)
    elif c["loss"] == "ph":
        v = fn(P, T, **bs)
    elif c["loss"] == "lool_u":
        v = fn(P, T, V)
    elif c["loss"] == "looph":
        v = fn(P, T, V, 1.7, **bs)
    else:
        v = fn(P, T, V, 1.7)
    return {"same:loss": float(v)}


def p_scale(c, rank, size):
    m = model_of(c)
    X, Y, idx, nn, Q, qn = data(c, rank)
    pd = m.kernel.deformation.metric
    X, Y, idx, nn, _, _ = data(dict(c, where="all"), rank)
    pair = X[nn][:, :, None, :] - X[nn][:, None, :, :]
    s = specs()[c["spec"]]
    if s.get("def", "iso") == "iso":
        d2 = (pair ** 2).sum(-1)
        pair = np.sqrt(d2) if s["metric"] == "l2" else d2
    t = Y[nn]
    for _ in range(c.get("times", 1)):
        m.optimize_scale(part(c, pair, rank), part(c, t, rank))
    return {"same:scale": float(m.scale())}


def p_obj(c, rank, size):
    """objective values at a list of parameter points"""
    from MuyGPyS.optimize.chassis import L_BFGS_B_optimize
    m = model_of(c)
    X, Y, idx, nn, Q, qn = data(c, rank)
    if c["loss"] == "ce":
        lab = (np.arange(len(X)) if X is not None else np.arange(1)) % 2
        Y = None if X is None else np.where(np.eye(2)[lab] > 0, 1.0, -1.0)
    cr, pa, tg, nt = m.make_train_tensors(idx, nn, X, Y)
    lk = {"boundary_scale": 2.0} if c["loss"] in ("ph", "looph") and c["b"] % 3 else {}
    obj = L_BFGS_B_optimize.make_obj_fn(m, tg, nt, cr, pa, loss_fn=losses()[c["loss"]], loss_kwargs=lk)
    names = m.get_opt_params()[0]
    out = {}
    for i, f in enumerate(c["points"]):
        kw = {}
        for j, nme in enumerate(names):
            kw[nme] = {"n": 1e-3}.get(nme[0], 0.4) * (1 + f + 0.3 * j)
        out[f"same:obj{i}"] = float(obj(**kw))
    return out


def p_hier(c, rank, size):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.kernels import RBF
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import VectorParam, ScalarParam
    from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.gp.tensors import batch_features_tensor
    kn = pts(c["knots"], 2, salt=0.11)
    hp = HierarchicalParam(kn, VectorParam(*[ScalarParam(0.6 + 0.2 * i, (0.1, 5.0)) for i in range(c["knots"])]),
                           RBF(deformation=Isotropy(F2, ScalarParam(1.0))))
    m = MuyGPS(kernel=RBF(deformation=Isotropy(F2, hp)), noise=HomoscedasticNoise(1e-3))
    X, Y, idx, nn, Q, qn = data(c, rank)
    cr, pa, tg, nt = m.make_train_tensors(idx, nn, X, Y)
    bf = batch_features_tensor(X, idx)
    Kin, Kc = m.kernel(pa, batch_features=bf), m.kernel(cr, batch_features=bf)
    out = {"chunk:Kin": Kin, "chunk:Kc": Kc, "chunk:mean": m.posterior_mean(Kin, Kc, nt), "chunk:var": m.posterior_variance(Kin, Kc)}
    return out


class ScriptBO:
    """bayes_opt stand-in: visits `n` points of the box chosen by its own random source, like the real one"""

    def __init__(self, f, pbounds, random_state=None, **kw):
        if isinstance(random_state, np.random.RandomState):
            self.r = random_state
        elif random_state is None:
            self.r = np.random.RandomState(np.random.randint(0, 2 ** 31 - 1))   # fresh entropy of this rank
        else:
            self.r = np.random.RandomState(random_state)
        self.f, self.b, self.pts, self.res = f, pbounds, [], []

    def set_gp_params(self, *a, **k):
        pass

    def probe(self, params, lazy=True):
        self.pts.append(dict(params))

    def maximize(self, init_points=2, n_iter=1, **k):
        q = list(self.pts)
        for _ in range(init_points + n_iter):
            q.append({n: float(self.r.uniform(lo, hi)) for n, (lo, hi) in self.b.items()})
        for p in q:
            self.res.append((float(self.f(**p)), p))

    @property
    def max(self):
        t, p = max(self.res, key=lambda x: x[0])
        return {"target": t, "params": p}


def p_train(c, rank, size):
    import seams
    from MuyGPyS.optimize import Bayes_optimize, L_BFGS_B_optimize
    m = model_of(c)
    out = {}
    for k, v in params(m).items():
        out["same:init:" + k] = v
    X, Y, idx, nn, Q, qn = data(c, rank)
    for rnd in range(c.get("rounds", 1)):
        cr, pa, tg, nt = m.make_train_tensors(idx, nn, X, Y)
        for step in c["steps"]:
            if step == "lbfgs":
                m = L_BFGS_B_optimize(m, tg, nt, cr, pa, loss_fn=losses()[c["loss"]], options={"maxiter": 4})
            elif step == "fakelbfgs":
                def fake(fun, x0, args=(), method=None, bounds=None, **kw):
                    best = None
                    n = len(x0)
                    for t in (0.25, 0.5, 0.75):
                        x = np.array([lo + t * (hi - lo) for lo, hi in bounds])
                        v = float(fun(x, *args))
                        if best is None or v < best[0]:
                            best = (v, x)
                    v = float(fun(np.asarray(x0), *args))
                    if v < best[0]:
                        best = (v, np.asarray(x0))
                    return type("R", (), dict(x=best[1], fun=best[0], success=True))()
                with seams.fake_minimize(fake):
                    m = L_BFGS_B_optimize(m, tg, nt, cr, pa, loss_fn=losses()[c["loss"]])
            elif step in ("bayes", "bayesseed"):
                kw = {"random_state": 7} if step == "bayesseed" else {}
                with seams.fake_bayes(ScriptBO):
                    m = Bayes_optimize(m, tg, nt, cr, pa, loss_fn=losses()[c["loss"]], init_points=2, n_iter=1, **kw)
            elif step in ("realbayes", "realbayesnone"):
                kw = {"random_state": 3} if step == "realbayes" else {}
                m = Bayes_optimize(m, tg, nt, cr, pa, loss_fn=losses()[c["loss"]], init_points=2, n_iter=2, **kw)
            elif step == "scale":
                m = m.optimize_scale(pa, nt)
            for k, v in params(m).items():
                out[f"same:{rnd}:{step}:{k}"] = v
    pr = m.make_predict_tensors(None if Q is None else np.arange(len(Q)), qn, Q, X, Y)
    Kin, Kc = m.kernel(pr[1]), m.kernel(pr[0])
    out["chunk:mean"] = m.posterior_mean(Kin, Kc, pr[2])
    out["chunk:var"] = m.posterior_variance(Kin, Kc)
    return out


def p_sample(c, rank, size):
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam
    out = {}
    for rep in range(c.get("times", 1)):
        for i, (how, b) in enumerate(c["draws"]):
            out[f"same:p{rep}.{i}"] = float(ScalarParam(how, tuple(b))())
        v = VectorParam(*[ScalarParam(how, tuple(b)) for how, b in c["draws"]])
        out[f"same:v{rep}"] = np.asarray(v(), dtype=float)
        for f, kc in c.get("knots", ()):
            from MuyGPyS.gp.hyperparameter.experimental import sample_knots
            out[f"same:k{rep}.{f}.{kc}"] = np.asarray(sample_knots(f, kc), dtype=float)
    return out


RUN = dict(unsup=p_unsup, shear=p_shear, tensors=p_tensors, model=p_model, loss=p_loss, scale=p_scale, obj=p_obj, hier=p_hier, train=p_train, sample=p_sample)


def run(c, rank, size):
    return RUN[c["prog"]](c, rank, size)


if __name__ == "__main__":      # real MPI: mpirun -n N python mpiprog.py cases.json outdir
    import json, pickle, sys
    from mpi4py import MPI
    w = MPI.COMM_WORLD
    res = []
    for c in json.load(open(sys.argv[1])):
        np.random.seed(1000 + 17 * w.Get_rank())
        try:
            res.append(("ok", run(c, w.Get_rank(), w.Get_size())))
        except Exception as e:  # noqa
            res.append(("raise", f"{type(e).__name__}: {e}"))
        w.barrier()
    pickle.dump(res, open(f"{sys.argv[2]}/{w.Get_rank()}.pkl", "wb"))
