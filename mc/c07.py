"""C07: the objective at any assignment, given in any way and any sequence, is minus the loss of the rebuilt model."""
import copy, itertools
import seams
import numpy as np
from ref import *
import c04

CUR = dict(length_scale=0.8, length_scale0=0.8, length_scale1=1.4, smoothness=1.1, noise=0.03)
BND = dict(length_scale=(0.2, 3.1), length_scale0=(0.2, 3.0), length_scale1=(0.35, 2.5), smoothness=(0.4, 2.6), noise=(0.001, 0.3))
LOSSES = ["mse", "lool", "lool_unscaled", "ph", "looph", "ce"]
SCALES = [dict(t="fixed", val=1.0), dict(t="fixed", val=2.5), dict(t="analytic"), dict(t="analytic", iteration_count=3), dict(t="analytic", val=3.0),
          dict(t="down", down_count=2, iteration_count=3), dict(t="down", down_count=3, iteration_count=2)]
NOISES = ["homo", "homo-free", "hetero", "null"]
KERN = ["rbf-iso", "rbf-aniso", "rbf-diso", "rbf-iso-free", "rbf-aniso-free", "rbf-aniso-half", "m15-iso-free", "m05-aniso-free", "m25-iso", "mfree-iso", "mfree-iso-free", "mfree-aniso-free", "minf-iso-free"]


def spec_of(kern, noise, scale, b, k):
    base, d, *fr = kern.split("-")
    fr = fr[0] if fr else "fixed"
    s = dict(kernel="rbf" if base == "rbf" else "matern", scale=scale)
    s["def"] = d
    if base != "rbf":
        s["nu"] = {"m15": 1.5, "m05": 0.5, "m25": 2.5, "mfree": 1.1, "minf": float("inf")}[base]
        s["nub"] = list(BND["smoothness"]) if base == "mfree" else "fixed"
    if d == "aniso":
        s["ls"] = [CUR["length_scale0"], CUR["length_scale1"]]
        s["lsb"] = {"fixed": ["fixed", "fixed"], "free": [list(BND["length_scale0"]), list(BND["length_scale1"])], "half": ["fixed", list(BND["length_scale1"])]}[fr]
    else:
        s["ls"] = CUR["length_scale"]
        s["lsb"] = list(BND["length_scale"]) if fr == "free" else "fixed"
    s["noise"] = {"homo": dict(t="homo", v=0.03), "homo-free": dict(t="homo", v=0.03, b=list(BND["noise"])), "null": dict(t="null"),
                  "hetero": dict(t="hetero", v=(0.01 * (1 + np.arange(b)[:, None] % 5 + 0.3 * np.arange(k)[None, :])).tolist())}[noise]
    return s


def cases(tier, env):
    out = []
    for kern in KERN:
        if TORCH and kern.startswith("mfree"):
            continue
        for noise in NOISES:
            for loss in LOSSES:
                for sc in SCALES:
                    if loss in ("mse", "ph", "ce") and sc["t"] != "fixed" and sc != SCALES[2]:
                        continue
                    if loss == "ce" and sc["t"] != "fixed":
                        continue
                    out.append(dict(k="obj", kern=kern, noise=noise, loss=loss, scale=sc, b=5, nn=4))
    for b, k in [(1, 1), (1, 4), (2, 2), (3, 3), (4, 4), (7, 5), (16, 10), (33, 17), (64, 30), (128, 8), (100, 50), (257, 3), (2, 100)]:
        for loss in LOSSES:
            for sc in (SCALES[1], SCALES[2], SCALES[3]):
                if (loss == "ce" and (b < 2 or sc["t"] != "fixed")) or (TORCH and b > 100):
                    continue
                out.append(dict(k="obj", kern="rbf-iso-free", noise="homo-free", loss=loss, scale=sc, b=b, nn=k))
    for b, k in [(513, 2), (1025, 1), (2049, 2), (4097, 1)]:
        for i, loss in enumerate(LOSSES):
            if not TORCH and (b < 2000 or i in (0, 2)):
                out.append(dict(k="obj", kern="rbf-iso-free", noise="homo-free", loss=loss, scale=SCALES[0 if loss == "ce" else 1 + i % 2], b=b, nn=k))
    for b, k in [(1, 1), (5, 4), (4, 4), (7, 3)]:
        for loss in LOSSES:
            for sc in (SCALES[0], SCALES[1], SCALES[2], SCALES[3], SCALES[5]):
                for r in (1, 2, 3, b):
                    if loss == "ce" or (r > 1 and sc["t"] != "fixed") or (sc["t"] == "down" and k < 3):
                        continue
                    out.append(dict(k="obj", kern="rbf-iso-free", noise="homo-free", loss=loss, scale=sc, b=b, nn=k, r=r))
    for mask in ([0], [1], [2], [0, 1], [0, 2], [1, 2], [2, 0], [0, 1, 2], [2, 1, 0]):
        for loss in ("mse", "ph"):
            out.append(dict(k="mask", loss=loss, mask=mask))
    return out


def free_of(st):
    return c04.free_names(st)


def put(st, n, v):
    c04.put(st, n, v)


def loss_obj(name):
    import MuyGPyS.optimize.loss as L
    return {"mse": L.mse_fn, "lool": L.lool_fn, "lool_unscaled": L.lool_fn_unscaled, "ph": L.pseudo_huber_fn, "looph": L.looph_fn, "ce": L.cross_entropy_fn}[name]


def rloss(name, mu, t, v, s, kw):
    if name == "mse":
        return ref_mse(mu, t)
    if name == "lool":
        return ref_lool(mu, t, v, s)
    if name == "lool_unscaled":
        return ref_lool_u(mu, t, v)
    if name == "ph":
        return ref_ph(mu, t, **kw)
    if name == "looph":
        return ref_looph(mu, t, v, s, **kw)
    return ref_ce(mu, t)


def draws(n, s, i):
    """scripted selection: the i-th draw"""
    c = list(itertools.combinations(range(n), s))
    return c[(3 * i + 1) % len(c)]


def rscale(st, Kin, ynn, b, k):
    sc = st["scale"]
    if sc["t"] == "fixed":
        return sc.get("val", 1.0)
    if sc["t"] == "analytic":
        return ref_scale(Kin, ynn, st["noise"], sc.get("iteration_count", 1))
    out = []
    nd = noise_diag(st["noise"], b, k)
    P_ = Kin + nd[:, :, None] * np.eye(k)
    for i in range(sc["iteration_count"]):
        s = sorted(draws(k, sc["down_count"], i))
        out.append(ref_scale(P_[:, s][:, :, s], ynn[:, s], dict(t="null")))
    return float(np.median(out))


def data(b, k, loss, r=0):
    n = max(3 * k, 24, b + 5)
    train = pts(n, 2)
    bi = (np.arange(b) * 5 + 2) % n if b < n else np.arange(b) % n
    nn = nbrs(train, train[bi], k, skip=bi)
    if loss == "ce":
        lab = (np.arange(n) * 7 // 3) % 3
        y = np.where(lab[:, None] == np.arange(3)[None, :], 1.0, -0.1)
    else:
        y = vals(n, r) if r else vals(n, 1)[:, 0]
    return train, bi, nn, y


def run(case, rec):
    from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
    if case["k"] == "mask":
        return mask(case, rec)
    b, k = case["b"], case["nn"]
    st0 = spec_of(case["kern"], case["noise"], case["scale"], b, k)
    train, bi, nn, y = data(b, k, case["loss"], case.get("r", 0))
    m = rec.call("construct", mk_model, st0)
    cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
    free = free_of(st0)
    lkws = [{}]
    if case["loss"] in ("ph", "looph"):
        lkws = [{}, {"boundary_scale": 0.4}, {"boundary_scale": 5.0}]
    # points: current (no keywords), partial assignments, full assignments in several orders, then the first again
    pts_ = [{}]
    for t in (0.15, 0.5, 0.85):
        pts_.append({n: bd[0] + (t + 0.05 * i) * (bd[1] - bd[0]) for i, (n, bd) in enumerate(free)})
    for r in range(1, len(free)):
        for sub in itertools.combinations(free, r):
            pts_.append({n: bd[0] + 0.6 * (bd[1] - bd[0]) for n, bd in sub})
    if free:
        pts_.append({n: bd[0] for n, bd in free}); pts_.append({n: bd[1] for n, bd in free})
    seq = pts_ + pts_[:2]
    # consecutive evaluations that give the same values to different parameters
    for i, j in itertools.combinations(range(len(free)), 2):
        (n1, b1), (n2, b2) = free[i], free[j]
        lo, hi = max(b1[0], b2[0]), min(b1[1], b2[1])
        if lo < hi:
            u, w = lo + 0.3 * (hi - lo), lo + 0.9 * (hi - lo)
            seq += [{n1: u, n2: w}, {n2: u, n1: w}, {n1: u}, {n2: u}, {n1: u, n2: u}, {}]
    for lkw in lkws:
        for maker in (L_BFGS_B_optimize, Bayes_optimize):
            obj = rec.call("make_obj_fn", maker.make_obj_fn, m, bt, nt, cr, pr,
                           **({} if case["loss"] == "lool" and len(nt) % 2 else dict(loss_fn=loss_obj(case["loss"]))), **(dict(loss_kwargs=lkw) if lkw else {}))
            for j, p in enumerate(seq):
                st = copy.deepcopy(st0)
                for n, v in p.items():
                    put(st, n, v)
                Kin, Kc = ref_k(st, pair_diffs(train, nn)), ref_k(st, cross_diffs(train[bi], train, nn))
                mu, v = ref_post(st, Kin, Kc, y[nn], st["noise"])
                # rounding of the solves, as a part of the smallest variance: beyond the tolerance the value is not determined
                pk = Kin + noise_diag(st["noise"], b, k)[:, :, None] * np.eye(k)
                if (2e-16 if FT == "64" else 1.2e-7) * np.linalg.cond(pk).max() / min(1.0, v.min()) > (1e-7 if FT == "64" else 1e-3):
                    rec.note("ill-conditioned point skipped")
                    continue
                s = rscale(st, Kin, y[nn], b, k) if case["loss"] in ("lool", "looph") else 1.0
                w = -rloss(case["loss"], mu if y.ndim > 1 else mu[:, 0], y[bi], v, s, lkw)
                perms = list(itertools.permutations(p.items())) if len(p) <= 3 else [tuple(p.items()), tuple(reversed(p.items()))]
                for kv in perms[:6]:
                    with seams.Draws(draws, case["scale"].get("down_count")):
                        got = rec.call("objective", obj, **dict(kv))
                    rec.state((json.dumps(case, default=str), repr(lkw), kv, j))
                    rec.trace()
                    g = float(N(got).reshape(-1)[0]) if N(got).size == 1 else float("nan")
                    if not abs(g - w) <= (1e-5 if FT == "64" else 2e-2) * max(1.0, abs(w)):
                        rec.fail(f"objective.{case['loss']}.{case['scale']['t']}", f"{N(got)} instead of {w} at {kv} (evaluation {j})")
                        return
                    rec.outcome(round(w, 9))


def mask(case, rec):
    from MuyGPyS.optimize import L_BFGS_B_optimize
    b, k, msk = 5, 4, case["mask"]
    st0 = spec_of("rbf-iso-free", "homo-free", SCALES[1], b, k)
    train, bi, nn, _ = data(b, k, "mse")
    y = vals(len(train), 3)
    m = mk_model(st0)
    for form in ([msk, tuple(msk), np.array(msk)] if not TORCH else [msk, I(msk)]):
        cr, pr, bt, nt = m.make_train_tensors(I(bi), I(nn), A(train), A(y))
        obj = rec.call("make_obj_fn", L_BFGS_B_optimize.make_obj_fn, m, bt[:, msk], nt, cr, pr, loss_fn=loss_obj(case["loss"]), target_mask=form)
        for ls, nz in itertools.product((0.3, 0.8, 2.0), (0.01, 0.2)):
            st = copy.deepcopy(st0); put(st, "length_scale", ls); put(st, "noise", nz)
            Kin, Kc = ref_k(st, pair_diffs(train, nn)), ref_k(st, cross_diffs(train[bi], train, nn))
            mu, v = ref_post(st, Kin, Kc, y[nn], st["noise"])
            w = -rloss(case["loss"], mu[:, msk], y[bi][:, msk], v, 1.0, {})
            got = float(N(rec.call("objective", obj, length_scale=ls, noise=nz)))
            rec.state((tuple(msk), case["loss"], ls, nz, str(type(form)))); rec.trace()
            if abs(got - w) > (1e-6 if FT == "64" else 1e-2) * max(1, abs(w)):
                rec.fail("objective.mask", f"{got} instead of {w} for mask {form}")
