"""C17: torch layers. All sequences of forward passes, embedding and hyperparameter updates, optimizer steps, checkpoint restores and
neighborhood refreshes are run on the real layers; after every step the forward pass must equal the reference posterior at the
parameter values then in force, and gradients must equal central differences of that reference."""
import copy, itertools, warnings
import seams
import numpy as np
from ref import *
import c18

N_ = 11
SPECS = {
    "m05": dict(kernel="matern", nu=0.5, ls=0.9, noise=dict(t="homo", v=0.04), scale=dict(t="fixed")),
    "m15": dict(kernel="matern", nu=1.5, ls=0.8, lsb=[0.1, 5.0], noise=dict(t="homo", v=0.03, b=[0.001, 0.5]), scale=dict(t="fixed", val=1.7)),
    "m25": dict(kernel="matern", nu=2.5, ls=1.1, lsb=[0.1, 5.0], noise=dict(t="null"), scale=dict(t="analytic")),
    "minf": dict(kernel="matern", nu=float("inf"), ls=0.7, lsb=[0.1, 5.0], noise=dict(t="homo", v=0.05), scale=dict(t="analytic", val=0.6)),
    "rbf": dict(kernel="rbf", ls=0.9, lsb=[0.1, 5.0], noise=dict(t="homo", v=0.05), scale=dict(t="fixed")),
    "rbfd": dict(kernel="rbf", ls=0.9, lsb=[0.1, 5.0], noise=dict(t="homo", v=0.05), scale=dict(t="down", val=1.3, down_count=2, iteration_count=2), **{"def": "diso"}),
    "het": dict(kernel="matern", nu=1.5, ls=0.8, lsb=[0.1, 5.0], noise=dict(t="hetero"), scale=dict(t="fixed")),
}
MULTI = [["m15"], ["m15", "m05"], ["m15", "minf", "m25"]]
DIMS = [(4, 3, 1), (3, 3, 3), (1, 1, 1), (1, 3, 2), (5, 2, 2), (2, 4, 1), (4, 1, 3), (7, 9, 2), (11, 10, 1)]
OPS = ["E", "L", "N", "O", "A", "R", "F", "S", "B", "T", "U"]


def cases(tier, env):
    out = []
    depth = 3 if tier == "quick" else 4
    for nm in SPECS:
        for first in OPS:
            out.append(dict(k="seq", m=nm, first=first, depth=depth if nm in ("m15", "rbf") else depth - 1, d=[4, 3, 1]))
        for d in DIMS:
            out.append(dict(k="seq", m=nm, first="L", depth=2, d=list(d)))
            out.append(dict(k="grad", m=nm, d=list(d)))
    for i in range(len(MULTI)):
        for first in OPS:
            out.append(dict(k="seq", multi=i, first=first, depth=depth - (i != 1), d=[4, 3, len(MULTI[i])]))
        for d in DIMS:
            out.append(dict(k="seq", multi=i, first="L", depth=2, d=[d[0], d[1], len(MULTI[i])]))
            out.append(dict(k="grad", multi=i, d=[d[0], d[1], len(MULTI[i])]))
    for c in [dict(m="m15"), dict(m="rbf"), dict(m="m25"), dict(multi=1)]:
        for first in OPS:
            out.append(dict(k="seq", raw=1, first=first, depth=depth, d=[4, 3, 2 if "multi" in c else 1], **c))
        for d in DIMS[1:6]:
            out.append(dict(k="seq", raw=1, first="R", depth=2, d=[d[0], d[1], 2 if "multi" in c else d[2]], **c))
    for nm in ("m15", "rbf", "m05"):
        for loss in ("lool", "mse"):
            for it in (1, 2, 3):
                out.append(dict(k="train", m=nm, loss=loss, it=it))
        out.append(dict(k="predict", m=nm)); out.append(dict(k="refresh", m=nm))
    out.append(dict(k="predict", multi=1)); out.append(dict(k="refresh", multi=1)); out.append(dict(k="train", multi=1, loss="mse", it=1)); out.append(dict(k="train", multi=1, loss="mse", it=2))
    out.append(dict(k="reject"))
    out += with_layouts([dict(k="seq", m="m15", first="L", depth=2, d=[4, 3, 1])])
    return out


def tt(x):
    import torch
    return torch.tensor(np.asarray(x), dtype=torch.float64 if FT == "64" else torch.float32)


def embed(x, W, V):
    if W is None:
        return x
    return x @ W + 0.3 * np.tanh(x @ V)


W0 = np.array([[1.0, 0.2], [-0.3, 0.9]]); V0 = np.array([[0.7, -0.5], [0.4, 1.1]])


class World:
    def __init__(self, case):
        import torch
        self.b, self.k, self.r = case["d"]
        w = c18.World(max(N_, self.b, self.k + 1), 2, self.k, 3, self.r, 0.0)
        self.X, self.Y = w.X, w.Y.reshape(len(w.X), self.r)
        n = self.n = len(w.X)
        self.bi = (np.arange(self.b) * 5 + 2) % n if np.gcd(5, n) == 1 else np.arange(self.b)
        Z = embed(self.X, None, None) if case.get("raw") else embed(self.X, W0, V0)
        self.nnA = nbrs(Z, Z[self.bi], self.k, skip=self.bi)
        self.nnB = np.array([np.roll([i for i in range(n) if i != bi], j)[-self.k:] for j, bi in enumerate(self.bi)])
        self.case = case
        self.raw = case.get("raw")
        self.multi = "multi" in case
        self.sts = [self.spec(s) for s in (MULTI[case["multi"]] if self.multi else [case["m"]])]
        self.nn = self.nnA
        self.model()

    def spec(self, nm):
        st = copy.deepcopy(SPECS[nm])
        if st["noise"]["t"] == "hetero":
            st["noise"]["v"] = (0.01 * (1 + np.arange(self.b)[:, None] % 5 + 0.3 * np.arange(self.k)[None, :])).tolist()
        return st

    def model(self):
        import torch
        from MuyGPyS.torch import MuyGPs_layer, MultivariateMuyGPs_layer
        from MuyGPyS.gp import MultivariateMuyGPS as MM

        if self.multi:
            self.gp = MM(*[mk_args(s) for s in self.sts])
            layer = MultivariateMuyGPs_layer
        else:
            self.gp = mk_model(self.sts[0])
            layer = MuyGPs_layer

        w = self

        class Net(torch.nn.Module):
            def __init__(s):
                super().__init__()
                if not w.raw:
                    s.W, s.V = torch.nn.Parameter(tt(W0)), torch.nn.Parameter(tt(V0))
                s.embedding = (lambda x: x) if w.raw else (lambda x: x @ s.W + 0.3 * torch.tanh(x @ s.V))
                s.GP_layer = layer(self.gp, I(self.bi), I(self.nn), A(self.Y[self.bi]), A(self.Y[self.nn]))
                s.deformation = s.GP_layer.deformation
                s.batch_indices = I(self.bi)

            def forward(s, x):
                return s.GP_layer(s.embedding(x))
        self.net = Net()
        self.x = A(self.X).clone()
        self.saved = {k: v.detach().clone() for k, v in self.net.state_dict().items()}

    # ---- values in force, as the model reports them
    def models(self):
        return self.gp.models if self.multi else [self.gp]

    def now(self):
        out = []
        for st, m in zip(self.sts, self.models()):
            st = copy.deepcopy(st)
            st["ls"] = float(N(m.kernel.deformation.length_scale()))
            if st["noise"]["t"] == "homo":
                st["noise"]["v"] = float(N(m.noise()))
            st["sv"] = float(np.ravel(N(m.scale()))[0])
            out.append(st)
        return out

    def WV(self):
        if self.raw:
            return None, None
        return N(self.net.W).astype(float), N(self.net.V).astype(float)

    def reference(self, sts=None, W=None, V=None, X=None, nn=None, bi=None):
        """mean (b, r) and variance (b,) or (b, r)"""
        sts = sts or self.now()
        W0_, V0_ = self.WV()
        Z = embed(self.X if X is None else X, W0_ if W is None else W, V0_ if V is None else V)
        nn = self.nn if nn is None else nn
        mus, vs = [], []
        for r, st in enumerate(sts):
            K, C = ref_k(st, pair_diffs(Z, nn)), ref_k(st, cross_diffs(Z[self.bi], Z, nn))
            Y = self.Y[nn][:, :, r:r + 1] if self.multi else self.Y[nn]
            mu, v = ref_post(st, K, C, Y, st["noise"])
            mus.append(mu); vs.append(v * st["sv"])
        if self.multi:
            return np.concatenate([m.reshape(self.b, 1) for m in mus], 1), np.stack(vs, 1)
        return mus[0], vs[0]

    def loss(self, mean, var):
        cm = 0.3 + np.arange(mean.numel() if hasattr(mean, "numel") else mean.size) % 3
        cv = 0.5 + np.arange(var.numel() if hasattr(var, "numel") else var.size) % 2
        if hasattr(mean, "numel"):
            return (mean.reshape(-1) * tt(cm)).sum() + (var.reshape(-1) * tt(cv)).sum()
        return float((mean.reshape(-1) * cm).sum() + (var.reshape(-1) * cv).sum())

    def trainable(self):
        """(name, tensor) of every hyperparameter that can be changed in place"""
        out = []
        for i, m in enumerate(self.models()):
            out.append((f"length_scale.{i}", m.kernel.deformation.length_scale()))
        return out


def apply(w, op, rec, i):
    import torch
    with torch.no_grad():
        if op == "E" and w.raw:
            # the features themselves move, in the same tensor
            w.X = w.X + 0.1 * (i + 1) * np.array([[0.5, -0.25]]) * (np.arange(w.n)[:, None] % 3)
            w.x.copy_(tt(w.X))
        elif op == "E":
            w.net.W.add_(tt(0.1 * (i + 1) * np.array([[1.0, -1.0], [0.5, 0.3]])))
        elif op == "L":
            for j, (_, p) in enumerate(w.trainable()):
                p.mul_(1.3 if i % 2 == 0 else 0.6 + 0.1 * j)
            if not w.multi:
                got = float(N(w.net.GP_layer.length_scale))
                if abs(got - float(N(w.gp.kernel.deformation.length_scale()))) > 1e-12:
                    rec.fail("layer.length_scale-detached", f"{got} is not the model's {w.gp.kernel.deformation.length_scale()}")
        elif op == "N":
            for st, m in zip(w.sts, w.models()):
                if st["noise"]["t"] == "homo":
                    p = m.noise()
                    p.mul_(2.0)
        elif op == "S":
            w.saved2 = {k: v.detach().clone() for k, v in w.net.state_dict().items()}
        elif op == "R":
            w.nn = w.nnB if w.nn is w.nnA else w.nnA
            w.net.GP_layer.batch_nn_indices = I(w.nn)
            w.net.GP_layer.batch_nn_targets = A(w.Y[w.nn])
        elif op == "B":
            w.net.load_state_dict(getattr(w, "saved2", w.saved))
        elif op == "U":
            # the scale is trained on the neighborhoods in force
            Z = w.net.embedding(w.x)
            d = w.models()[0].kernel.deformation
            if (w.multi or w.r == 1) and (w.k > 2 or all(st["scale"]["t"] != "down" for st in w.sts)):
                with seams.Draws(lambda pool, m, i: [(j + i) % pool for j in range(m)], next((st["scale"]["down_count"] for st in w.sts if st["scale"].get("down_count")), None)):
                    rec.call("optimize_scale", w.gp.optimize_scale, d.pairwise_tensor(Z, I(w.nn)), A(w.Y[w.nn] if w.multi else w.Y[w.nn][..., 0]))
        elif op == "T":
            w.net.train(not w.net.training)
    if op in ("O", "A"):
        import torch
        params = list(w.net.parameters())
        if not params:
            return
        names = [n for n, _ in w.net.named_parameters()]
        before = [N(p).copy() for p in params]
        opt = torch.optim.SGD(params, lr=0.02) if op == "O" else torch.optim.Adam(params, lr=0.02)
        opt.zero_grad()
        want = numgrad(w)
        mean, var = rec.call("forward", w.net, w.x)
        rec.call("backward", w.loss(mean, var).backward)
        gs = [N(p.grad).copy() for p in params]
        opt.step()
        if not w.multi and not any(p is w.gp.kernel.deformation.length_scale() for p in params):
            rec.fail("layer.parameters", f"the length scale is not among the trainable parameters {names}")
        for n, p, b0, g in zip(names, params, before, gs):
            key = "W" if n.endswith("W") else "V" if n.endswith("V") else "ls"
            rec.trace()
            if not gclose(g, want[key]):
                rec.fail(f"gradient.{key}", f"{g.tolist()} instead of {np.asarray(want[key]).tolist()} after {w.hist}")
            if op == "O" and not np.allclose(N(p), b0 - 0.02 * g, rtol=1e-4, atol=1e-6):
                rec.fail("step", n)


def gclose(g, want):
    t = 2e-4 if FT == "64" else 3e-2
    return np.allclose(np.ravel(g), np.ravel(want), rtol=t, atol=t * max(1.0, np.abs(np.ravel(want)).max()))


def numgrad(w):
    """central differences of the reference loss"""
    W, V = w.WV()
    sts = w.now()
    h = 1e-5

    def f(**k):
        return w.loss(*w.reference(**{**dict(sts=sts, W=W, V=V), **k}))
    out = {}
    for nm, M in (("W", W), ("V", V)) if W is not None else ():
        g = np.zeros_like(M)
        for ij in np.ndindex(*M.shape):
            a, b = M.copy(), M.copy()
            a[ij] += h; b[ij] -= h
            g[ij] = (f(**{nm: a}) - f(**{nm: b})) / (2 * h)
        out[nm] = g
    gl = []
    for j in range(len(sts)):
        a, b = copy.deepcopy(sts), copy.deepcopy(sts)
        a[j]["ls"] += h; b[j]["ls"] -= h
        gl.append((f(sts=a) - f(sts=b)) / (2 * h))
    out["ls"] = gl[0] if len(gl) == 1 else gl
    out["lsall"] = gl
    return out


def check_forward(w, rec, sig):
    import torch
    mean, var = rec.call("forward", w.net, w.x)
    wm, wv = w.reference()
    rec.trace(2)
    t = 1e-6 if FT == "64" else 5e-3
    if not np.allclose(N(mean).reshape(wm.shape), wm, rtol=t, atol=t):
        rec.fail(f"{sig}.mean", f"after {w.hist}: {diffmsg(N(mean).reshape(wm.shape), wm)}"); return False
    if not np.allclose(N(var).reshape(wv.shape), wv, rtol=t, atol=t):
        rec.fail(f"{sig}.variance", f"after {w.hist}: {diffmsg(N(var).reshape(wv.shape), wv)}"); return False
    if not isinstance(mean, torch.Tensor) or tuple(mean.shape)[0] != w.b or tuple(var.shape)[0] != w.b:
        rec.fail(f"{sig}.shape", f"{tuple(mean.shape)} {tuple(var.shape)}"); return False
    rec.outcome((w.hist, repr(np.round(wm, 5).tolist())))
    return True


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["k"]](case, rec)


def legal(seq):
    return True


def run_seq(case, rec):
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        seq = (case["first"],) + rest
        for every in (False, True):
            w = World(case)
            w.hist = ""
            if every and not check_forward(w, rec, "layer"):
                return
            for i, op in enumerate(seq):
                w.hist += op
                if op == "F":
                    rec.call("forward", w.net, w.x)
                else:
                    rec.trans()
                    apply(w, op, rec, i)
                rec.state((json.dumps(case), w.hist, every))
                if every and not check_forward(w, rec, "layer"):
                    return
                if rec.fails:
                    return
            if not check_forward(w, rec, "layer"):
                return


def run_grad(case, rec):
    """gradients with respect to embedding, length scales and inputs, at several parameter values, in both modes"""
    for ls, mode, refresh in itertools.product((None, 0.4, 2.2), (True, False), (False, True)):
        w = World(case)
        w.hist = f"ls={ls} train={mode} refresh={refresh}"
        import torch
        if ls is not None:
            with torch.no_grad():
                for j, (_, p) in enumerate(w.trainable()):
                    p.fill_(ls * (1 + 0.2 * j))
        if refresh:
            apply(w, "R", rec, 0)
        w.net.train(mode)
        want = numgrad(w)
        x = A(w.X).clone().requires_grad_(True)
        mean, var = rec.call("forward", w.net, x)
        rec.call("backward", w.loss(mean, var).backward)
        rec.state((json.dumps(case), w.hist)); rec.trace(3)
        for nm, g in (("W", w.net.W.grad), ("V", w.net.V.grad)):
            if g is None or not gclose(N(g), want[nm]):
                rec.fail(f"gradient.{nm}", f"{None if g is None else N(g).tolist()} instead of {want[nm].tolist()}; {w.hist}"); return
        for (nm, p), g in zip(w.trainable(), want["lsall"]):
            if p.grad is None or not gclose(N(p.grad), g):
                rec.fail("gradient.length_scale", f"{None if p.grad is None else float(N(p.grad))} instead of {g}; {w.hist}"); return
        # inputs: every coordinate of one query, one neighbor and one bystander
        W, V = w.WV()
        rows = {int(w.bi[0]), int(w.nn[0][0]), *[i for i in range(w.n) if i not in set(w.bi.tolist()) | set(w.nn.ravel().tolist())][:1]}
        for i in rows:
            for f in range(2):
                a, b = w.X.copy(), w.X.copy()
                a[i, f] += 1e-5; b[i, f] -= 1e-5
                g = (w.loss(*w.reference(X=a)) - w.loss(*w.reference(X=b))) / 2e-5
                rec.trace()
                if not gclose(N(x.grad)[i, f], g):
                    rec.fail("gradient.features", f"row {i}: {N(x.grad)[i, f]} instead of {g}; {w.hist}"); return
        # noise
        for st, m in zip(w.sts, w.models()):
            if st["noise"]["t"] == "homo" and not w.multi:
                sts = w.now(); a, b = copy.deepcopy(sts), copy.deepcopy(sts)
                a[0]["noise"]["v"] += 1e-6; b[0]["noise"]["v"] -= 1e-6
                g = (w.loss(*w.reference(sts=a)) - w.loss(*w.reference(sts=b))) / 2e-6
                gr = m.noise().grad
                if gr is not None and not np.allclose(float(N(gr)), g, rtol=1e-2 if FT == "64" else 0.1, atol=1e-2 * max(1, abs(g))):
                    rec.fail("gradient.noise", f"{float(N(gr))} instead of {g}; {w.hist}"); return
        rec.outcome((case.get("m"), w.hist))


# ------------------------------------------------------------------ workflows
def emb(w, X=None):
    return embed(w.X if X is None else X, *w.WV())


def setup(case):
    c = dict(case, d=[4, 3, len(MULTI[case["multi"]]) if "multi" in case else 1])
    w = World(c)
    w.hist = json.dumps(case)
    return w


def lookup(w, Z):
    from MuyGPyS.neighbors import NN_Wrapper
    return NN_Wrapper(Z.astype(np.float64 if FT == "64" else np.float32), w.k, nn_method="exact", algorithm="ball_tree", n_jobs=1)


def run_predict(case, rec):
    from MuyGPyS.examples import muygps_torch as M
    w = setup(case)
    for i, op in enumerate(["", "E", "L", "O", "R", "N"]):
        if op:
            apply(w, op, rec, i)
        Z = emb(w)
        for t in (1, 3, 5):
            T = pts(t, 2, 0.37)
            ZT = emb(w, T)
            mu, v = rec.call("predict_model", M.predict_model, w.net, A(T), A(w.X), A(w.Y), lookup(w, Z), w.k)
            tn = nbrs(Z, ZT, w.k)
            mus, vs = [], []
            for r, st in enumerate(w.now()):
                m_, v_ = ref_post(st, ref_k(st, pair_diffs(Z, tn)), ref_k(st, cross_diffs(ZT, Z, tn)), w.Y[tn][:, :, r:r + 1], st["noise"])
                mus.append(m_[:, 0]); vs.append(v_ * st["sv"])
            wm, wv = np.stack(mus, 1), np.stack(vs, 1)
            rec.state((json.dumps(case), i, t)); rec.trace(2)
            tol = 1e-6 if FT == "64" else 5e-3
            if not np.allclose(N(mu).reshape(wm.shape), wm, rtol=tol, atol=tol):
                rec.fail("predict_model.mean", f"after {op}: {diffmsg(N(mu).reshape(wm.shape), wm)}"); return
            if not np.allclose(N(v).reshape(wv.shape), wv, rtol=tol, atol=tol):
                rec.fail("predict_model.variance", f"after {op}: {diffmsg(N(v).reshape(wv.shape), wv)}"); return


def forward_with(w, nn):
    return w.reference(nn=nn)


def run_refresh(case, rec):
    """after refreshing, passes use the neighborhoods of the current embedding, without the points themselves"""
    from MuyGPyS.examples import muygps_torch as M
    for seq in itertools.product(("E", "L", "R", "F"), repeat=2):
        w = setup(case)
        for i, op in enumerate(seq):
            rec.call("forward", w.net, w.x) if op == "F" else apply(w, op, rec, i)
        old = w.nn
        lk, net = rec.call("update_nearest_neighbors", M.update_nearest_neighbors, w.net, A(w.X), A(w.Y), I(w.bi), w.k, dict(nn_method="exact", algorithm="ball_tree", n_jobs=1))
        Z = emb(w)
        want = nbrs(Z, Z[w.bi], w.k, skip=w.bi)
        rec.state((json.dumps(case), seq)); rec.trace(3)
        gi = N(rec.call("get_batch_nns", lk.get_batch_nns, I(w.bi))[0])
        if not np.array_equal(np.sort(gi, 1), np.sort(want, 1)):
            rec.fail("update_nearest_neighbors.index", f"{gi.tolist()} instead of {want.tolist()}"); return
        mean, var = rec.call("forward", w.net, w.x)
        tol = 1e-6 if FT == "64" else 5e-3

        def same(nn):
            m, v = w.reference(nn=nn)
            return np.allclose(N(mean).reshape(m.shape), m, rtol=tol, atol=tol) and np.allclose(N(var).reshape(v.shape), v, rtol=tol, atol=tol)
        if same(want):
            continue
        rec.fail("update_nearest_neighbors:layer-keeps-old-neighborhoods" if same(old) else "update_nearest_neighbors.forward", f"after {seq}")
        st = getattr(net, "batch_nn_indices", None)
        if st is None:
            rec.fail("update_nearest_neighbors.stored", "no neighborhoods stored on the model"); return
        with_self = nbrs(Z, Z[w.bi], w.k)
        if not np.array_equal(np.sort(N(st), 1), np.sort(want, 1)):
            rec.fail("update_nearest_neighbors:neighborhoods-include-the-point" if np.array_equal(np.sort(N(st), 1), np.sort(with_self, 1)) else "update_nearest_neighbors.stored", f"{N(st).tolist()} instead of {want.tolist()}")
        if not np.allclose(N(net.batch_nn_targets), w.Y[N(st)]):
            rec.fail("update_nearest_neighbors.targets", "stored targets do not belong to the stored neighborhoods")


def run_train(case, rec):
    """the training loop equals the manual loop over forward, loss, step and refresh"""
    import torch
    from MuyGPyS.examples import muygps_torch as M
    from MuyGPyS.optimize.loss import lool_fn_unscaled
    for method, lr, decay, uf in itertools.product((torch.optim.SGD, torch.optim.Adam), (0.01, 0.1), (0.95, 0.5), (1, 2, 10)):
        w = setup(case); v = setup(case)
        kw = dict(nn_method="exact", algorithm="ball_tree", n_jobs=1)
        lk, net = rec.call("train", M.train_deep_kernel_muygps, w.net, A(w.X), A(w.Y), I(w.bi), lookup(w, emb(w)), training_iterations=case["it"], optimizer_method=method,
                           learning_rate=lr, scheduler_decay=decay, loss_function=case["loss"], update_frequency=uf, nn_kwargs=kw)
        rec.state((json.dumps(case), str(method), decay, uf)); rec.trace()

        def manual(refresh, skip):
            v = setup(case)
            opt = method([{"params": v.net.parameters()}], lr=lr)
            g = lr
            for i in range(case["it"]):
                opt.zero_grad()
                mean, var = v.net(v.x)
                y = A(v.Y[v.bi])
                loss = lool_fn_unscaled(mean.squeeze(), y.squeeze(), var.squeeze()) if case["loss"] == "lool" else torch.nn.functional.mse_loss(mean, y)
                loss.sum().backward()
                for p in opt.param_groups:
                    p["lr"] = g
                opt.step()
                g *= decay
                if refresh and i % uf == 0:
                    Z = emb(v)
                    v.nn = nbrs(Z, Z[v.bi], v.k, skip=v.bi if skip else None)
                    v.net.GP_layer.batch_nn_indices = I(v.nn)
                    v.net.GP_layer.batch_nn_targets = A(v.Y[v.nn])
            return v
        got = {n: N(p) for n, p in w.net.named_parameters()}
        t = 1e-7 if FT == "64" else 1e-4

        def same(v):
            return all(np.allclose(got[n], N(p), rtol=t, atol=t) for n, p in v.net.named_parameters()) and len(got) == len(list(v.net.parameters()))
        if not same(manual(True, True)):
            if same(manual(False, True)):
                rec.fail("train_deep_kernel_muygps:layer-keeps-old-neighborhoods", f"{case}")
            else:
                rec.fail("train.parameters", f"{method} lr decay {decay} update {uf}: {got}"); return
        Z = emb(w)
        gi = N(lk.get_batch_nns(I(w.bi))[0])
        want = nbrs(Z, Z[w.bi], w.k, skip=w.bi)
        if not np.array_equal(np.sort(gi, 1), np.sort(want, 1)):
            rec.fail("train.index", f"{gi.tolist()} instead of {want.tolist()}"); return
        moved = not np.allclose(N(w.net.W), W0)
        if not moved:
            rec.fail("train.unchanged", "the embedding did not train"); return
        rec.outcome((case["loss"], case["it"], decay, uf))


def run_reject(case, rec):
    """what the layer cannot train it refuses"""
    from MuyGPyS.torch import MuyGPs_layer
    from MuyGPyS.examples import muygps_torch as M
    w = setup(dict(k="reject", m="m15"))
    for st in (dict(kernel="rbf", ls=[0.8, 1.3], noise=dict(t="homo", v=0.05), **{"def": "aniso"}), dict(kernel="matern", nu=1.5, ls=[0.8, 1.3], noise=dict(t="homo", v=0.05), **{"def": "aniso"})):
        rec.trans(); rec.trace(); rec.state(repr(st))
        try:
            MuyGPs_layer(mk_model(st), I(w.bi), I(w.nn), A(w.Y[w.bi]), A(w.Y[w.nn]))
            rec.fail("reject.anisotropy", repr(st))
        except NotImplementedError:
            pass
    for loss in ("bogus", "", "mse2"):
        rec.trans(); rec.trace(); rec.state(loss)
        try:
            M.train_deep_kernel_muygps(w.net, A(w.X), A(w.Y), I(w.bi), lookup(w, emb(w)), training_iterations=1, loss_function=loss)
            rec.fail("reject.loss", loss)
        except ValueError:
            pass
    w.net.embedding = None
    for fn in (lambda: M.predict_model(w.net, A(w.X), A(w.X), A(w.Y), None, 3), lambda: M.update_nearest_neighbors(w.net, A(w.X), A(w.Y), I(w.bi), 3),
               lambda: M.train_deep_kernel_muygps(w.net, A(w.X), A(w.Y), I(w.bi), None)):
        rec.trans(); rec.trace()
        try:
            fn()
            rec.fail("reject.embedding", "no embedding accepted")
        except NotImplementedError:
            pass
