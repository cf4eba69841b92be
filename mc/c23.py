"""C23: no public operation modifies its arguments; results are stable and repeatable. Every operation is run twice, with its result
overwritten in between, then followed by every other operation (all ordered pairs, thorough: triples through a shared prefix) on the
same arrays and model objects; every array ever handed in or returned is compared bit for bit with a private copy."""
import contextlib, copy, io, itertools, warnings
import seams
import numpy as np
from ref import *
from ref import P
import c06, c07, c18

DIMS = [(4, 3, 2), (3, 3, 3), (1, 2, 1), (5, 2, 1), (2, 4, 4)]
UN = {
    "rbf": dict(kernel="rbf", ls=0.8, lsb=[0.2, 3.0], noise=dict(t="homo", v=0.03, b=[0.001, 0.3]), scale=dict(t="analytic")),
    "m05": dict(kernel="matern", nu=0.5, ls=0.8, noise=dict(t="homo", v=0.03), scale=dict(t="fixed", val=2.0)),
    "m15": dict(kernel="matern", nu=1.5, ls=0.8, lsb=[0.2, 3.0], noise=dict(t="null"), scale=dict(t="analytic", iteration_count=3)),
    "m25": dict(kernel="matern", nu=2.5, ls=[0.8, 1.3], lsb=[[0.2, 3.0], "fixed"], noise=dict(t="hetero"), scale=dict(t="down", down_count=1, iteration_count=2), **{"def": "aniso"}),
    "minf": dict(kernel="matern", nu=float("inf"), ls=0.8, noise=dict(t="hetero"), scale=dict(t="fixed")),
    "rbfa": dict(kernel="rbf", ls=[0.8, 1.3], lsb=[[0.2, 3.0], [0.3, 2.5]], noise=dict(t="homo", v=0.03), scale=dict(t="analytic"), **{"def": "aniso"}),
    "rbfd": dict(kernel="rbf", ls=0.8, lsb=[0.2, 3.0], noise=dict(t="hetero"), scale=dict(t="analytic"), **{"def": "diso"}),
    "mgen": dict(kernel="matern", nu=1.1, nub=[0.4, 2.2], ls=0.8, noise=dict(t="homo", v=0.03), scale=dict(t="fixed")),
}
if TORCH:
    UN.pop("mgen")


def cases(tier, env):
    out = []
    for d in range(len(DIMS)):
        names = sorted(ops(DIMS[d]))
        for first in names:
            out.append(dict(k="pairs", d=d, first=first, deep=tier == "thorough" and d < 2))
    out_c = []
    for d in range(len(DIMS)):
        names = sorted(n for n in ops(DIMS[d]) if not n.startswith("objective"))      # an objective keeps the arrays it was built from
        out_c += [dict(k="contents", d=d, names=names[i::6], how=how) for how in HOWS for i in range(6)]
    return out_c + out + with_layouts([c for c in out if c["d"] in ((0, 1) if tier == "thorough" else (0,))])


# ------------------------------------------------------------------ what is observed of a value
def arrays(x, seen=None):
    """every array inside a result"""
    if x is None or isinstance(x, (str, bytes, bool, int, float)):
        return
    if isinstance(x, np.ndarray) or hasattr(x, "detach"):
        yield x
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from arrays(x[k])
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y)


def snap(x):
    return [(str(N(a).dtype), N(a).shape, N(a).tobytes()) for a in arrays(x)] + scalars(x)


def scalars(x):
    if isinstance(x, (list, tuple)):
        return [s for y in x for s in scalars(y)]
    if isinstance(x, dict):
        return [s for k in sorted(x, key=str) for s in scalars(x[k])]
    return [repr(float(x))] if isinstance(x, (int, float, np.floating)) and not isinstance(x, bool) else []


def copies(x):
    return [np.array(N(a), copy=True) for a in arrays(x)] + [np.array(float(s)) for s in scalars(x)]


def same_values(a, b):
    t = 1e-11 if FT == "64" else 1e-5
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and np.allclose(x.astype(float), y.astype(float), rtol=t, atol=t, equal_nan=True) for x, y in zip(a, b))


def params_of(m):
    ms = m.models if hasattr(m, "models") else [m]
    out = []
    for x in ms:
        for n in sorted(x.kernel._hyperparameters):
            p = x.kernel._hyperparameters[n]
            try:
                out.append((n, N(p()).tobytes(), repr(None if p.fixed() else p.get_bounds())))
            except TypeError:
                pass
        out.append(N(x.noise()).tobytes() if not type(x.noise).__name__.startswith("Null") else None)
        out.append(N(x.scale()).tobytes())
    return out


class World:
    def __init__(self, d):
        from MuyGPyS.gp import MultivariateMuyGPS as MM
        from MuyGPyS.neighbors import NN_Wrapper
        b, k, r = d
        self.b, self.kk, self.r = d
        n, f = 12, 2
        self.n = n
        X = pts(n, f); T = pts(b, f, 0.37)
        if FT == "32":
            X, T = X.astype(np.float32), T.astype(np.float32)
        bi = (np.arange(b) * 5 + 2) % n
        nn = nbrs(X, X[bi], k, skip=bi)
        tn = nbrs(X, T, k)
        Y = vals(n, r)
        het = 0.01 * (1 + np.arange(b)[:, None] + 0.3 * np.arange(k)[None, :])
        lab = (np.arange(n) * 7 // 3) % 2
        lab3 = np.arange(n) % 3
        c, p = cross_diffs(X[bi], X, nn), pair_diffs(X, nn)
        # everything handed to the code under test; the layout of the case applies
        self.a = dict(X=A(X), T=A(T), Y=A(Y), y=A(Y[:, 0]), bi=I(bi), ti=I(np.arange(b)), nn=I(nn), tn=I(tn), het=A(het), lab=I(lab), oh=A(np.where(lab[:, None] == np.arange(2), 1.0, -0.1)),
                      oh3=A(np.where(lab3[:, None] == np.arange(3), 1.0, 0.0)),
                      cd=A(c), pd=A(p), cl2=A(np.sqrt((c ** 2).sum(-1))), pl2=A(np.sqrt((p ** 2).sum(-1))), cF2=A((c ** 2).sum(-1)), pF2=A((p ** 2).sum(-1)),
                      nt=A(Y[nn]), nt1=A(Y[nn][:, :, 0]), bt=A(Y[bi]), bt1=A(Y[bi][:, 0]),
                      pred=A(vals(b, r, 0.3)), pred1=A(vals(b, 1, 0.3)[:, 0]), var=A(0.5 + np.abs(vals(b, r, 0.9))), var1=A(0.5 + np.abs(vals(b, 1, 0.9))[:, 0]),
                      cov=A(np.einsum("bij,bkj->bik", vals(b * r, r, 0.2).reshape(b, r, r), vals(b * r, r, 0.2).reshape(b, r, r)) + 0.5 * np.eye(r)),
                      co=A(vals(b * k, r, 0.4).reshape(b, k, r)), co1=A(vals(b, k, 0.4)), labels2=A(np.where((np.arange(b) % 2)[:, None] == np.arange(2), 1.0, 0.0)),
                      predc=A(vals(b, 2, 0.1)), one=A(np.array([2.0])), X1=A(X[:, 0]), T1=A(T[:, 0]))
        self.m = {}
        for nm, s in UN.items():
            s = copy.deepcopy(s)
            if s["noise"]["t"] == "hetero":
                from MuyGPyS.gp.noise import HeteroscedasticNoise
                from MuyGPyS.gp import MuyGPS
                self.m[nm] = MuyGPS(kernel=mk_kernel(s), noise=HeteroscedasticNoise(self.a["het"]), scale=mk_scale(s["scale"]))
            else:
                self.m[nm] = mk_model(s)
        lsm = [dict(UN["m15"], noise=dict(t="homo", v=0.02 + 0.01 * i), ls=0.7 + 0.1 * i) for i in range(r)]
        self.m["multi"] = MM(*[mk_args(s) for s in lsm])
        self.lk = NN_Wrapper(self.a["X"], k, n_jobs=1)
        self.lkb = NN_Wrapper(self.a["X"], k, n_jobs=1, algorithm="brute")
        self.lk1 = NN_Wrapper(self.a["X1"], k, n_jobs=1)
        self.lkh = NN_Wrapper(self.a["X"], k, nn_method="hnsw", space="l2", ef_construction=100, M=16) if not TORCH else None
        self.K, self.Kc = {}, {}
        for nm, m in self.m.items():
            if nm == "multi":
                continue
            pr, cr = self.diffs(nm)
            self.K[nm], self.Kc[nm] = m.kernel(pr), m.kernel(cr)
        self.obj = {}
        for nm in ("rbf", "m15", "rbfa", "m25", "rbfd"):
            for loss in ("mse", "lool", "looph"):
                pr, cr = self.diffs(nm)
                self.obj[nm, loss] = c18.opt_of("scipy").make_obj_fn(self.m[nm], self.a["bt1"], self.a["nt1"], cr, pr, loss_fn=c07.loss_obj(loss))
        self.base = {k_: (np.array(N(v), copy=True), N(v).strides) for k_, v in self.a.items()}
        self.tens = dict(K=snap(self.K), Kc=snap(self.Kc))
        self.par = {k_: params_of(m) for k_, m in self.m.items()}

    def diffs(self, nm):
        s = UN.get(nm)
        if s is None:
            return self.a["pl2"], self.a["cl2"]
        if not is_iso(s):
            return self.a["pd"], self.a["cd"]
        m = s.get("metric", "l2" if s["kernel"] == "matern" else "F2")
        return self.a["p" + m], self.a["c" + m]

    def changed(self):
        out = [k_ for k_, v in self.a.items() if N(v).tobytes() != self.base[k_][0].tobytes() or N(v).shape != self.base[k_][0].shape]
        if self.tens["K"] != snap(self.K):
            out.append("kernel matrix")
        if self.tens["Kc"] != snap(self.Kc):
            out.append("cross covariance")
        out += ["parameters of " + k_ for k_, m in self.m.items() if params_of(m) != self.par[k_]]
        return out

    def new(self, nm):
        """a model of its own for operations that train"""
        return copy.deepcopy(self.m[nm]) if not TORCH else (mk_model(UN[nm]) if UN[nm]["noise"]["t"] != "hetero" else self.hetero(nm))

    def hetero(self, nm):
        from MuyGPyS.gp.noise import HeteroscedasticNoise
        from MuyGPyS.gp import MuyGPS
        return MuyGPS(kernel=mk_kernel(UN[nm]), noise=HeteroscedasticNoise(self.a["het"]), scale=mk_scale(UN[nm]["scale"]))


def ops(d):
    b, k, r = d
    o = {}

    def add(name):
        def deco(f):
            o[name] = f
            return f
        return deco
    # tensors
    for nm in ("rbf", "m15", "rbfa", "rbfd"):
        o[f"train_tensors.{nm}"] = lambda w, nm=nm: w.m[nm].make_train_tensors(w.a["bi"], w.a["nn"], w.a["X"], w.a["Y"])
        o[f"predict_tensors.{nm}"] = lambda w, nm=nm: w.m[nm].make_predict_tensors(w.a["ti"], w.a["tn"], w.a["T"], w.a["X"], w.a["Y"])
        o[f"predict_tensors.self.{nm}"] = lambda w, nm=nm: w.m[nm].make_predict_tensors(w.a["bi"], w.a["nn"], None, w.a["X"], w.a["Y"])
        o[f"pairwise.{nm}"] = lambda w, nm=nm: w.m[nm].kernel.deformation.pairwise_tensor(w.a["X"], w.a["nn"])
        o[f"crosswise.{nm}"] = lambda w, nm=nm: w.m[nm].kernel.deformation.crosswise_tensor(w.a["X"], w.a["X"], w.a["bi"], w.a["nn"])
    o["tensors.1d"] = lambda w: (w.m["rbf"].kernel.deformation.pairwise_tensor(w.a["X1"], w.a["nn"]), w.m["rbf"].kernel.deformation.crosswise_tensor(w.a["T1"], w.a["X1"], w.a["ti"], w.a["tn"]))
    o["train_tensors.multi"] = lambda w: w.m["multi"].make_train_tensors(w.a["bi"], w.a["nn"], w.a["X"], w.a["Y"])
    o["predict_tensors.multi"] = lambda w: w.m["multi"].make_predict_tensors(w.a["ti"], w.a["tn"], w.a["T"], w.a["X"], w.a["Y"])

    @add("fast_nn_update")
    def _(w):
        from MuyGPyS.gp.tensors import fast_nn_update
        return fast_nn_update(full_nn(w))

    @add("make_fast_predict_tensors")
    def _(w):
        from MuyGPyS.gp.tensors import make_fast_predict_tensors
        return make_fast_predict_tensors(full_nn(w), w.a["X"], w.a["Y"])

    @add("batch_features")
    def _(w):
        from MuyGPyS.gp.tensors import batch_features_tensor
        return batch_features_tensor(w.a["X"], w.a["bi"])

    @add("make_heteroscedastic_tensor")
    def _(w):
        from MuyGPyS.gp.tensors import make_heteroscedastic_tensor
        return make_heteroscedastic_tensor(w.a["y"], w.a["nn"])
    # metric
    for nm in ("l2", "F2"):
        def met(w, nm=nm):
            from MuyGPyS.gp import deformation as D
            m = getattr(D, nm)
            return (m(w.a["pd"]), m(w.a["cd"]), m.pairwise_differences(w.a["X"], w.a["nn"]), m.crosswise_differences(w.a["T"], w.a["X"], w.a["ti"], w.a["tn"]),
                    m.pairwise_distances(w.a["X"], w.a["nn"]), m.crosswise_distances(w.a["T"], w.a["X"], w.a["ti"], w.a["tn"]))
        o[f"metric.{nm}"] = met
    # kernels, noise, posterior
    for nm in UN:
        o[f"kernel.{nm}"] = lambda w, nm=nm: (w.m[nm].kernel(w.diffs(nm)[0]), w.m[nm].kernel(w.diffs(nm)[1]))
        o[f"perturb.{nm}"] = lambda w, nm=nm: w.m[nm].noise.perturb(w.K[nm])
        o[f"mean.{nm}"] = lambda w, nm=nm: (w.m[nm].posterior_mean(w.K[nm], w.Kc[nm], w.a["nt"]), w.m[nm].posterior_mean(w.K[nm], w.Kc[nm], w.a["nt1"]))
        o[f"variance.{nm}"] = lambda w, nm=nm: w.m[nm].posterior_variance(w.K[nm], w.Kc[nm])
        o[f"fast.{nm}"] = lambda w, nm=nm: (w.m[nm].fast_coefficients(w.K[nm], w.a["nt1"]), w.m[nm].fast_coefficients(w.K[nm], w.a["nt"]),
                                            w.m[nm].fast_posterior_mean(w.Kc[nm], w.a["co1"]), w.m[nm].fast_posterior_mean(w.Kc[nm], w.a["co"]))
        o[f"scale.{nm}"] = lambda w, nm=nm: scale_op(w, nm)

        def optfn(w, nm=nm):
            m = w.m[nm]
            kw = {n: 0.9 for n in m.get_opt_params()[0] if n.startswith("length")}
            return m.kernel.get_opt_fn()(w.diffs(nm)[0], **kw), m.kernel(w.diffs(nm)[1])
        o[f"optfn.{nm}"] = optfn
    o["override.rbf"] = lambda w: w.m["rbf"].kernel(w.a["pF2"], length_scale=1.7)
    o["override.rbfa"] = lambda w: w.m["rbfa"].kernel(w.a["pd"], length_scale0=1.7)
    if "mgen" in UN:
        o["override.mgen"] = lambda w: w.m["mgen"].kernel(w.a["pl2"], smoothness=0.7, length_scale=1.2)
    o["multi.mean"] = lambda w: w.m["multi"].posterior_mean(w.a["pl2"], w.a["cl2"], w.a["nt"])
    o["multi.variance"] = lambda w: w.m["multi"].posterior_variance(w.a["pl2"], w.a["cl2"])
    o["multi.fast"] = lambda w: (w.m["multi"].fast_coefficients(w.a["pl2"], w.a["nt"]), w.m["multi"].fast_posterior_mean(w.a["cl2"], w.a["co"]))

    @add("multi.scale")
    def _(w):
        from MuyGPyS.gp import MultivariateMuyGPS as MM
        m = MM(*[mk_args(dict(UN["m15"], noise=dict(t="homo", v=0.02 + 0.01 * i))) for i in range(w.r)])
        m = m.optimize_scale(w.a["pl2"], w.a["nt"])
        return [N(x.scale()) for x in m.models]
    # losses
    for nm in ("mse", "ph", "lool", "lool_unscaled", "looph", "ce"):
        def loss(w, nm=nm):
            f = c07.loss_obj(nm)
            a = w.a
            if nm in ("mse", "ph"):
                return f(a["pred"], a["bt"]), f(a["pred1"], a["bt1"])
            if nm == "ce":
                return f(a["predc"], a["labels2"])
            s = () if nm == "lool_unscaled" else (2.0,)
            out = [f(a["pred1"], a["bt1"], a["var1"], *s)]
            out.append(f(a["pred"], a["bt"], a["var1"], *s))
            if nm != "looph":
                out += [f(a["pred"], a["bt"], a["var"], *s), f(a["pred"], a["bt"], a["cov"], *s)]
                if s:
                    out.append(f(a["pred1"], a["bt1"], a["var1"], a["one"]))
            return out
        if nm != "ce" or b > 1:
            o[f"loss.{nm}"] = loss
    # objectives built beforehand, at the current and at other parameters
    for nm in ("rbf", "m15", "rbfa", "m25", "rbfd"):
        for l in ("mse", "lool", "looph"):
            def ob(w, nm=nm, l=l):
                out = []
                names = w.m[nm].get_opt_params()[0]
                with seams.Draws(lambda N_, m, i: list(range(m))):
                    for t in (None, 0.5, 1.1):
                        kw = {} if t is None else {n: (t if n != "noise" else 0.01 * t) for n in names}
                        out.append(w.obj[nm, l](**kw))
                return out
            o[f"objective.{nm}.{l}"] = ob
    # neighbors and samplers
    o["get_nns"] = lambda w: (w.lk.get_nns(w.a["T"]), w.lkb.get_nns(w.a["T"]))
    o["get_nns.1d"] = lambda w: w.lk1.get_nns(w.a["T1"])
    o["get_batch_nns"] = lambda w: (w.lk.get_batch_nns(w.a["bi"]), w.lkb.get_batch_nns(w.a["bi"]))
    if not TORCH:
        o["get_nns.hnsw"] = lambda w: w.lkh.get_nns(w.a["T"])
        o["get_batch_nns.hnsw"] = lambda w: w.lkh.get_batch_nns(w.a["bi"])

    @add("index")
    def _(w):
        from MuyGPyS.neighbors import NN_Wrapper
        q = NN_Wrapper(w.a["X"], w.kk, n_jobs=1, algorithm="kd_tree", leaf_size=2)
        return q.get_nns(w.a["T"])

    @add("samplers")
    def _(w):
        import MuyGPyS.optimize.batch as B
        with seams.Draws(lambda N_, m, i: list(range(m))):
            return (B.sample_batch(w.lk, 3, w.n), B.sample_batch(w.lk, 20, w.n), B.get_balanced_batch(w.lk, w.a["lab"], 6), B.full_filtered_batch(w.lk, w.a["lab"]), B.sample_balanced_batch(w.lk, w.a["lab"], 4))
    # optimizers, scripted
    for opt in (() if TORCH else ("scipy", "bayes")):
        for nm in ("rbf", "rbfa", "m25"):
            def run_opt(w, opt=opt, nm=nm):
                from scipy.optimize import OptimizeResult
                m0 = w.m[nm]
                pr, cr = w.diffs(nm)
                log = {}

                def fmin(fun, x0, *a, **k_):
                    v = [fun(np.array(x0) * s) for s in (1.0, 1.05, 1.0)]
                    return OptimizeResult(x=np.array(x0) * 1.1, fun=v[0], success=True, status=0, message="", nit=1, nfev=1)

                def ans(ns):
                    return {n: 0.9 if n != "noise" else 0.05 for n in ns}
                with seams.fake_minimize(fmin), seams.fake_bayes(c06.FakeBO(log, ans)), seams.Draws(lambda N_, m, i: list(range(m))):
                    m = c18.opt_of(opt)(m0, w.a["bt1"], w.a["nt1"], cr, pr)
                return [np.frombuffer(x[1]) if isinstance(x, tuple) else np.frombuffer(x) for x in params_of(m) if x is not None and (isinstance(x, tuple) or len(x))]
            o[f"optimize.{opt}.{nm}"] = run_opt
    if not TORCH:
        o.update(experimental(d))
        o.update(workflows(d))
    return o


def scale_op(w, nm):
    m = w.new(nm)
    with seams.Draws(lambda N_, mm_, i: list(range(mm_))):
        m = m.optimize_scale(w.diffs(nm)[0], w.a["nt1"])
    return [N(m.scale())]


def full_nn(w):
    """neighbors of every training point"""
    if "fullnn" not in w.a:
        X = N(w.a["X"])
        v = I(nbrs(X, X, max(1, min(w.kk, 4)), skip=np.arange(len(X))))
        w.a["fullnn"] = v
        w.base["fullnn"] = (np.array(N(v), copy=True), N(v).strides)
    return w.a["fullnn"]


def experimental(d):
    from MuyGPyS.gp.tensors import batch_features_tensor
    o = {}

    def hier(w):
        from MuyGPyS.gp import MuyGPS
        from MuyGPyS.gp.kernels import Matern
        from MuyGPyS.gp.deformation import Isotropy, l2
        from MuyGPyS.gp.hyperparameter import VectorParam
        from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam
        if "knots" not in w.a:
            w.a["knots"] = A(pts(3, 2, 0.2)); w.base["knots"] = (np.array(N(w.a["knots"]), copy=True), None)
            hp = HierarchicalParam(w.a["knots"], VectorParam(P(0.5), P(0.9), P(1.4)), Matern(deformation=Isotropy(l2, P(1.1)), smoothness=P(1.5)))
            w.hm = MuyGPS(kernel=Matern(smoothness=P(1.5), deformation=Isotropy(l2, hp)))
        return w.hm

    def h1(w):
        m = hier(w)
        bf = batch_features_tensor(w.a["X"], w.a["bi"])
        return m.kernel(w.a["pl2"], batch_features=bf), m.kernel(w.a["cl2"], batch_features=bf), bf
    o["hierarchical"] = h1

    def s1(w):
        import c22
        ks = [c22.mk(False, 0.7), c22.mk(True, 0.7)]
        D = pts(9, 2).reshape(3, 3, 2)
        if "shear" not in w.a:
            w.a["shear"] = A(D - D.transpose(1, 0, 2)); w.base["shear"] = (np.array(N(w.a["shear"]), copy=True), None)
        return [k_(w.a["shear"]) for k_ in ks] + [N(k_.Kout()) for k_ in ks]
    o["shear"] = s1
    return o


def workflows(d):
    o = {}

    def quiet(fn):
        def go(w):
            from scipy.optimize import OptimizeResult
            with seams.fake_minimize(lambda fun, x0, *a, **k_: OptimizeResult(x=np.array(x0) * 1.1, fun=fun(np.array(x0)), success=True, status=0, message="", nit=1, nfev=1)), \
                    seams.Draws(lambda N_, m, i: list(range(N_))[::-1][:m]), contextlib.redirect_stdout(io.StringIO()):
                return fn(w)
        return go

    def rg(w):
        from MuyGPyS.examples.regress import do_regress
        m, nn, mu, v = do_regress(w.a["T"], w.a["X"], w.a["y"], nn_count=w.kk, batch_count=5, opt_fn=c18.opt_of("scipy"), k_kwargs=mk_args(UN["rbf"]), nn_kwargs=dict(n_jobs=1))
        return mu, v
    o["do_regress"] = quiet(rg)

    def rm(w):
        from MuyGPyS.examples.regress import do_regress
        m, nn, mu, v = do_regress(w.a["T"], w.a["X"], w.a["Y"], nn_count=w.kk, batch_count=5, opt_fn=c18.opt_of("scipy"), k_kwargs=[mk_args(UN["rbf"]) for _ in range(w.r)], nn_kwargs=dict(n_jobs=1))
        return mu, v
    o["do_regress.multi"] = quiet(rm)

    def dc(w):
        from MuyGPyS.examples.classify import do_classify
        m, nn, p = do_classify(w.a["T"], w.a["X"], w.a["oh3"], nn_count=max(w.kk, 2), batch_count=6, opt_fn=c18.opt_of("scipy"), k_kwargs=mk_args(dict(UN["rbf"], scale=dict(t="fixed"))), nn_kwargs=dict(n_jobs=1))
        return p
    o["do_classify"] = quiet(dc)

    def du(w):
        from MuyGPyS.examples.two_class_classify_uq import do_classify_uq, do_uq
        m, nn, p, masks = do_classify_uq(w.a["T"], w.a["X"], w.a["oh"], nn_count=max(w.kk, 2), opt_batch_count=6, uq_batch_count=20, opt_fn=c18.opt_of("scipy"),
                                         uq_objectives=[lambda *a: 5, lambda *a: 500], k_kwargs=mk_args(dict(UN["m05"])), nn_kwargs=dict(n_jobs=1))
        acc, uq = do_uq(p, w.a["labels2"], masks)
        return p, masks, np.nan_to_num(uq)
    if d == (4, 3, 2):
        o["do_classify_uq"] = quiet(du)

    def fp(w):
        from MuyGPyS.examples.fast_posterior_mean import do_fast_posterior_mean
        if w.kk < 2:
            return None
        m, nn, mu, C, _ = do_fast_posterior_mean(w.a["T"], w.a["X"], w.a["y"], nn_count=w.kk, batch_count=5, opt_fn=c18.opt_of("scipy"), k_kwargs=mk_args(UN["m05"]), nn_kwargs=dict(n_jobs=1))
        return mu, C
    o["do_fast_posterior_mean"] = quiet(fp)

    def fi(w):
        from MuyGPyS.examples import from_indices as F
        a = (w.a["ti"], w.a["tn"], w.a["T"], w.a["X"], w.a["Y"])
        return F.regress_from_indices(w.m["rbf"], *a), F.posterior_mean_from_indices(w.m["multi"], *a), F.tensors_from_indices(w.m["rbfa"], *a)
    o["from_indices"] = fi
    return o


def scribble(w, res):
    """overwrite everything a caller owns: results that are not (views of) what was handed in or kept by the caller"""
    for a in arrays(res):
        x = N(a)
        if not x.flags.writeable or x.size == 0 or any(np.shares_memory(x, N(v)) for v in list(w.a.values()) + list(w.K.values()) + list(w.Kc.values())):
            continue
        if any(np.shares_memory(x, N(p)) for p in [getattr(m.noise, "val", np.zeros(1)) for m in w.m.values() if hasattr(m, "noise") and isinstance(getattr(m.noise, "val", None), np.ndarray)]):
            continue
        x[...] = 77 if x.dtype != bool else True


# ------------------------------------------------------------------ the caller rewrites its own arrays between two calls
HOWS = ["all", "inside", "rows", "neighbors"]
KEPT = ("het", "X1", "knots", "shear", "lab", "oh", "oh3", "fullnn", "one")      # kept by reference by a model or an index, or constant


def rewrite(key, x, how, n):
    """other contents of the same shape, type and (except "all") the same first and last entries or the same multiset of entries"""
    y = np.array(x, copy=True)
    if how == "rows":
        return np.roll(y, 1, axis=0) if y.ndim > 1 or key in ("bt1", "pred1", "y", "T1", "bi", "ti") else y
    if how == "neighbors":
        return np.roll(y, 1, axis=1) if key in ("nn", "tn", "nt", "nt1", "cd", "cl2", "cF2", "co", "co1", "Y", "pred", "var", "T", "Kc") else y
    if y.dtype.kind in "iu":
        if how == "all":
            return (y + 1) % n if key in ("bi", "nn", "tn") else y
        if y.ndim == 2 and y.shape[0] > 2:
            y[1:-1] = (y[1:-1] + 1) % n
        return y
    if key in ("labels2",):
        return y[:, ::-1].copy() if how == "all" else y
    if how == "all":
        y *= 1.25
        return y
    if y.shape[0] > 2:
        y[1:-1] *= 1.125
    elif y.ndim > 1 and y.shape[1] > 2:
        y[:, 1:-1] *= 1.125
    return y


def contents(case, rec):
    d = DIMS[case["d"]]
    table = ops(d)
    for nm in case["names"]:
        uses_index = any(s in nm for s in ("nns", "index", "samplers", "do_"))
        w, w2 = World(d), World(d)
        full_nn(w), full_nn(w2)

        def keys(u):
            return [(k_, u.a) for k_ in sorted(u.a) if k_ not in KEPT and not (k_ == "X" and uses_index)] + [(k_, u.K) for k_ in sorted(u.K)] + [(k_, u.Kc) for k_ in sorted(u.Kc)]
        rec.call(nm, table[nm], w)
        rec.call(nm, table[nm], w)
        for (k_, da), (_, db) in zip(keys(w), keys(w2)):
            tag = "Kc" if da is w.Kc else "K" if da is w.K else k_
            v = rewrite(tag, N(da[k_]), case["how"], w.n)
            N(da[k_])[...] = v                                       # the very array handed over before
            db[k_] = A(v) if v.dtype.kind == "f" else I(v)
        got = rec.call(nm, table[nm], w)
        want = rec.call(nm, table[nm], w2)
        rec.trace(); rec.state((case["d"], nm, case["how"])); rec.outcome(nm)
        if not same_values(copies(want), copies(got)):
            rec.fail(f"{nm}.stale", f"{nm} answers for earlier contents of the arrays it is given ({case['how']})")


def run(case, rec):
    if case["k"] == "contents":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return contents(case, rec)
    d = DIMS[case["d"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        table = ops(d)
        names = sorted(table)
        first = case["first"]
        w = World(d)

        def do(nm, where):
            res = rec.call(nm, table[nm], w)
            ch = w.changed()
            rec.trace()
            if ch:
                rec.fail(f"{nm}.modifies", f"{ch} changed by {where}")
                return None, True
            return res, False
        r0, bad = do(first, first)
        if bad:
            return
        c0 = copies(r0)
        r1, bad = do(first, first + " again")
        if bad:
            return
        rec.state((case["d"], first))
        if not same_values(c0, copies(r0)):
            rec.fail(f"{first}.result-altered", f"{first} alters the result of its previous call"); return
        if not same_values(c0, copies(r1)):
            rec.fail(f"{first}.repeat", "the second call answers differently"); return
        scribble(w, r1)
        r2, bad = do(first, first + " after overwriting a result")
        if bad:
            return
        if not same_values(c0, copies(r2)):
            rec.fail(f"{first}.shared-result", "overwriting a returned array changes the next answer"); return
        if not same_values(c0, copies(r0)):
            rec.fail(f"{first}.shared-result", "two results share memory"); return
        keep = snap(r2)
        for nm in names:
            r3, bad = do(nm, f"{nm} after {first}")
            if bad:
                return
            rec.state((case["d"], first, nm))
            if snap(r2) != keep:
                rec.fail(f"{nm}.alters-result", f"{nm} alters an earlier result of {first}"); return
            b3 = copies(r3)
            r4, bad = do(first, f"{first} after {nm}")
            if bad:
                return
            if not same_values(c0, copies(r4)):
                rec.fail(f"{first}.depends-on-history", f"{first} answers differently after {nm}"); return
            if not same_values(b3, copies(r3)):
                rec.fail(f"{first}.alters-result", f"{first} alters an earlier result of {nm}"); return
            rec.outcome((first, nm))
            if case["deep"]:
                for n2 in names[::7]:
                    r5, bad = do(n2, f"{n2} after {nm} after {first}")
                    if bad:
                        return
                    if snap(r2) != keep or not same_values(b3, copies(r3)):
                        rec.fail(f"{n2}.alters-result", f"{n2} alters an earlier result of {first} or {nm}"); return
