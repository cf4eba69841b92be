"""C13: every sequence of multivariate operations up to a depth. A list of plain per-response states is stepped alongside; after every
operation every response must be exactly what the reference (and a real, independent univariate model) gives for that state alone."""
import copy, itertools
import seams
import numpy as np
from ref import *
import c04

B, K, F = 4, 3, 2
HET = [[0.01 * (1 + i + 2 * j) for j in range(K)] for i in range(B)]
L2 = [dict(kernel="matern", nu=0.5, ls=0.6, lsb=[0.05, 5.0], noise=dict(t="homo", v=0.01), scale=dict(t="analytic")),
      dict(kernel="matern", nu=1.5, ls=1.1, noise=dict(t="homo", v=0.05), scale=dict(t="fixed", val=2.0)),
      dict(kernel="matern", nu=2.5, ls=0.8, noise=dict(t="hetero", v=HET), scale=dict(t="analytic", iteration_count=3)),
      dict(kernel="matern", nu=1.5, ls=0.4, noise=dict(t="homo", v=0.02, b=[1e-4, 0.5]), scale=dict(t="down", down_count=2, iteration_count=2)),
      dict(kernel="matern", nu=float("inf"), ls=0.9, noise=dict(t="homo", v=0.03), scale=dict(t="analytic", val=4.0))]
F2 = [dict(kernel="rbf", ls=0.6, lsb=[0.05, 5.0], noise=dict(t="homo", v=0.01), scale=dict(t="analytic")),
      dict(kernel="rbf", ls=1.2, noise=dict(t="homo", v=0.04), scale=dict(t="fixed", val=0.5)),
      dict(kernel="rbf", ls=0.9, noise=dict(t="hetero", v=HET), scale=dict(t="down", down_count=2, iteration_count=2))]
DI = [dict(kernel="matern", nu=1.5, ls=[0.7, 1.3], lsb=["fixed", [0.05, 5.0]], noise=dict(t="homo", v=0.01), scale=dict(t="analytic"), **{"def": "aniso"}),
      dict(kernel="rbf", ls=[1.3, 0.6], noise=dict(t="homo", v=0.02), scale=dict(t="fixed"), **{"def": "aniso"}),
      dict(kernel="rbf", ls=0.8, noise=dict(t="hetero", v=HET), scale=dict(t="analytic"), **{"def": "diso"})]
SAME = [dict(kernel="matern", nu=1.5, ls=0.7, noise=dict(t="homo", v=0.01), metric="l2", scale=dict(t="analytic"), **{"def": "diso"}),
        dict(kernel="matern", nu=1.5, ls=0.7, noise=dict(t="homo", v=0.01), metric="F2", scale=dict(t="analytic"), **{"def": "diso"}),
        dict(kernel="rbf", ls=0.7, noise=dict(t="homo", v=0.01), metric="F2", scale=dict(t="analytic"), **{"def": "diso"}),
        dict(kernel="rbf", ls=0.7, noise=dict(t="homo", v=0.07), metric="F2", scale=dict(t="analytic"), **{"def": "diso"}),
        dict(kernel="rbf", ls=[0.7, 0.9], noise=dict(t="homo", v=0.01), metric="F2", scale=dict(t="analytic"), **{"def": "aniso"}),
        dict(kernel="rbf", ls=[0.9, 0.7], noise=dict(t="homo", v=0.01), metric="F2", scale=dict(t="analytic"), **{"def": "aniso"})]
MIXES = [[L2[0]], [L2[1], L2[1]], [L2[0], L2[1]], [L2[1], L2[0], L2[2]], [L2[3], L2[0]], [L2[0], L2[3], L2[4], L2[1], L2[2]], [L2[2], L2[2]],
         [F2[0], F2[1]], [F2[2], F2[0], F2[1]], [DI[0], DI[1]], [DI[2], DI[0], DI[1]], [L2[1], L2[4], L2[1]],
         [SAME[0], SAME[1]], [SAME[1], SAME[2], SAME[3]], [SAME[2], SAME[4], SAME[5]]]
OPS = ["mean", "variance", "scale-A", "scale-B", "coefficients", "fast-mean", "set-first", "set-last", "copy"]


def cases(tier, env):
    out = []
    d = 4 if tier == "thorough" else 3
    for m in range(len(MIXES)):
        if TORCH and any(s["kernel"] == "matern" and s["nu"] == 2.0 for s in MIXES[m]):
            continue
        for a in range(len(OPS)):
            out.append(dict(k="hist", m=m, first=a, depth=d - 1))
    # one long life: every word of operations of a length on a single set of live models
    for m in range(len(MIXES)):
        for rev in (False, True):
            out.append(dict(k="life", m=m, n=3 if tier == "thorough" else 2, rev=rev))
    for r in (1, 2, 3, 4, 5, 8, 10, 16, 17, 33):
        for fam in ("l2", "f2", "diff"):
            out.append(dict(k="size", fam=fam, r=r, b=[1, 2, 3, r, 10], nn=[1, 2, 3, r, 5]))
    for b, k, r in [(33, 10, 3), (64, 30, 2), (101, 5, 5), (128, 7, 2), (257, 3, 4), (513, 2, 2), (1025, 3, 1), (2049, 2, 2), (5001, 2, 1), (10001, 1, 1), (3, 100, 2), (2, 64, 2)]:
        for fam in ("l2", "f2", "diff"):
            out.append(dict(k="size", fam=fam, r=r, b=[b], nn=[k]))
    out.append(dict(k="reject"))
    out.append(dict(k="fixed"))
    out += with_layouts([dict(k="size", fam=fam, r=r, b=[1, 3], nn=[1, 3]) for fam in ("l2", "f2", "diff") for r in (1, 2, 3)])
    return out


def data(b, k, f, r, salt):
    n = max(18, 3 * k, b + 2)
    train = pts(n, f, salt)
    if FT == "32":
        train = train.astype(np.float32).astype(float)
    bi = (np.arange(b) * 5 + 2) % n
    nn = nbrs(train, train[bi], k, skip=bi)
    y = vals(n, r, salt) * (1 + salt)
    if FT == "32":
        y = y.astype(np.float32).astype(float)
    return train, bi, nn, y


def tolr(a=1.0):
    return dict(rtol=1e-6, atol=1e-7 * max(1.0, a)) if FT == "64" else dict(rtol=2e-2, atol=2e-2 * max(1.0, a))


class Ref:
    """per-response plain states"""

    def __init__(self, specs):
        self.st = [dict(copy.deepcopy(s), sval=float(s.get("scale", {}).get("val", 1.0))) for s in specs]

    def mean(self, d):
        train, bi, nn, y = d
        return np.stack([ref_post(s, ref_k(s, pair_diffs(train, nn)), ref_k(s, cross_diffs(train[bi], train, nn)), y[nn][:, :, i], s["noise"])[0][:, 0]
                         for i, s in enumerate(self.st)], axis=1)

    def var(self, d):
        train, bi, nn, y = d
        return np.stack([ref_post(s, ref_k(s, pair_diffs(train, nn)), ref_k(s, cross_diffs(train[bi], train, nn)), y[nn][:, :, i], s["noise"], s["sval"])[1]
                         for i, s in enumerate(self.st)], axis=1)

    def coeffs(self, d):
        train, bi, nn, y = d
        out = []
        for i, s in enumerate(self.st):
            Kin = ref_k(s, pair_diffs(train, nn)); nd = noise_diag(s["noise"], *nn.shape)
            out.append(np.stack([np.linalg.solve(Kin[a] + np.diag(nd[a]), y[nn][a, :, i]) for a in range(len(nn))]))
        return np.stack(out, axis=2)

    def train_scale(self, d):
        for i, s in enumerate(self.st):
            s["sval"] = float(np.ravel(c04.ref_scale_of(s, (d[0], d[1], d[2], d[3][:, i])))[0])


def real_uni(s):
    sp = copy.deepcopy(s); sc = sp.pop("scale"); sp["scale"] = dict(sc, val=sp.pop("sval"))
    return mk_model(sp)


def tensors_of(rec, m, d, st):
    train, bi, nn, y = d
    cr, pr, bt, nt = rec.call("make_train_tensors", m.make_train_tensors, I(bi), I(nn), A(train), A(y))
    wc, wp = tensors(st, train[bi], train, nn)
    rec.trace()
    if not (close(cr, wc) and close(pr, wp) and eq(bt, N(A(y))[bi]) and eq(nt, N(A(y))[nn])):
        rec.fail("make_train_tensors", f"{diffmsg(cr, wc)}; {diffmsg(pr, wp)}")
    c2, p2, n2 = rec.call("make_predict_tensors", m.make_predict_tensors, I(bi), I(nn), None, A(train), A(y))
    c3, p3, n3 = rec.call("make_predict_tensors", m.make_predict_tensors, I(np.arange(len(bi))), I(nn), A(train[bi]), A(train), A(y))
    if not (close(c2, wc) and close(p2, wp) and close(c3, wc) and close(p3, wp) and eq(n2, nt) and eq(n3, nt)):
        rec.fail("make_predict_tensors", f"{diffmsg(c2, wc)}; {diffmsg(c3, wc)}")
    return cr, pr, bt, nt


def observe(rec, m, ref, d, tens, where, uni=False):
    cr, pr, bt, nt = tens
    rec.trace(4)
    ok = True
    for nm, got, want in (
        ("posterior_mean", rec.call("posterior_mean", m.posterior_mean, pr, cr, nt), ref.mean(d)),
        ("posterior_variance", rec.call("posterior_variance", m.posterior_variance, pr, cr), ref.var(d)),
    ):
        if not close(got, want, **tolr()):
            rec.fail(nm, f"{where}: {diffmsg(got, want)}"); ok = False
    C = rec.call("fast_coefficients", m.fast_coefficients, pr, nt)
    W = ref.coeffs(d)
    t = tolr(np.abs(W).max())
    if not close(C, W, **t):
        rec.fail("fast_coefficients", f"{where}: {diffmsg(C, W)}"); ok = False
    fm = rec.call("fast_posterior_mean", m.fast_posterior_mean, cr, C)
    wf = ref.mean(d)
    if not close(fm, wf, **t):
        rec.fail("fast_posterior_mean", f"{where}: {diffmsg(fm, wf)}"); ok = False
    for i, s in enumerate(ref.st):
        g = float(np.ravel(N(m.models[i].scale()))[0])
        if abs(g - s["sval"]) > (1e-6 if FT == "64" else 2e-2) * max(1, abs(s["sval"])):
            rec.fail("scale", f"{where}: response {i}: {g} instead of {s['sval']}"); ok = False
        if uni:
            u = real_uni(s)
            Kin, Kc = u.kernel(pr), u.kernel(cr)
            if not closev(u.posterior_mean(Kin, Kc, nt[:, :, i]), N(m.posterior_mean(pr, cr, nt))[:, i], **tolr()):
                rec.fail("univariate.mean", where); ok = False
            if not closev(u.posterior_variance(Kin, Kc), N(m.posterior_variance(pr, cr))[:, i], **tolr()):
                rec.fail("univariate.variance", where); ok = False
    rec.outcome(where)
    return ok


def step(rec, op, m, ref, dd, td, age=0):
    """one operation on the real model and on the reference state"""
    if op == "mean":
        rec.call("posterior_mean", m.posterior_mean, td[0][1], td[0][0], td[0][3])
    elif op == "variance":
        rec.call("posterior_variance", m.posterior_variance, td[0][1], td[0][0])
    elif op in ("scale-A", "scale-B"):
        j = 0 if op == "scale-A" else 1
        with seams.Draws(lambda n, s, i: list(c04.SUB)[:s], len(c04.SUB)):
            back = rec.call("optimize_scale", m.optimize_scale, td[j][1], td[j][3])
        ref.train_scale(dd[j])
        return back
    elif op == "coefficients":
        rec.call("fast_coefficients", m.fast_coefficients, td[0][1], td[0][3])
    elif op == "fast-mean":
        c = rec.call("fast_coefficients", m.fast_coefficients, td[1][1], td[1][3])
        rec.call("fast_posterior_mean", m.fast_posterior_mean, td[1][0], c)
    elif op in ("set-first", "set-last"):
        i = 0 if op == "set-first" else len(ref.st) - 1
        names = c04.free_names(ref.st[i])
        if not names:
            return m
        n, bd = names[0]
        v = bd[0] + (0.37 + 0.001 * (age % 300)) * (bd[1] - bd[0])
        if n == "noise":
            m.models[i].noise._set_val(v); m.models[i]._make()
        else:
            m.models[i].kernel.set_params(**{n: P(v, bd)})
            m.models[i]._make()
        c04.put(ref.st[i], n, v)
    elif op == "copy":
        return copy.deepcopy(m)
    return m


def run(case, rec):
    from MuyGPyS.gp import MultivariateMuyGPS as MM
    if case["k"] == "hist":
        specs = MIXES[case["m"]]
        r = len(specs)
        dd = [data(B, K, F, r, s) for s in (0.0, 0.43)]
        for rest in itertools.product(range(len(OPS)), repeat=case["depth"]):
            seq = [OPS[case["first"]]] + [OPS[o] for o in rest]
            m = rec.call("construct", MM, *[mk_args(s) for s in specs])
            ref = Ref(specs)
            td = [tensors_of(rec, m, d, ref.st[0]) for d in dd]
            live = [(m, ref)]
            for j, op in enumerate(seq):
                if op == "copy":
                    if TORCH and any(o.startswith("scale") for o in seq[:j]):
                        continue      # torch: tensors carrying gradients cannot be deep copied
                    if len(live) < 2:
                        live.append((copy.deepcopy(live[0][0]), copy.deepcopy(live[0][1])))
                    else:
                        live.reverse()
                else:
                    back = step(rec, op, live[0][0], live[0][1], dd, td)
                    if back is not live[0][0]:
                        rec.fail("optimize_scale.returns", "not the model itself"); live[0] = (back, live[0][1])
                new = rec.state((case["m"], tuple(seq[:j + 1])))
                if j < len(seq) - 1 and not new:
                    continue
                ok = all(observe(rec, mm_, rf, dd[0], td[0], f"mix {case['m']} after {seq[:j + 1]}", uni=(j == len(seq) - 1 and case["first"] in (0, 2))) for mm_, rf in live)
                if not ok:
                    return
        return
    if case["k"] == "life":
        specs = MIXES[case["m"]]
        dd = [data(B, K, F, len(specs), s) for s in (0.0, 0.43)]
        m = rec.call("construct", MM, *[mk_args(s) for s in specs])
        ref = Ref(specs)
        td = [tensors_of(rec, m, d, ref.st[0]) for d in dd]
        live = [(m, ref)]
        word = de_bruijn(len(OPS), case["n"])
        for j, o in enumerate(reversed(word) if case["rev"] else word):
            op = OPS[o]
            if op == "copy":
                if len(live) < 2 and not TORCH:
                    live.append((copy.deepcopy(live[0][0]), copy.deepcopy(live[0][1])))
                else:
                    live.reverse()
            else:
                step(rec, op, live[0][0], live[0][1], dd, td, j)
            rec.state((case["m"], "life", case["rev"], j))
            if not all(observe(rec, mm_, rf, dd[j % 2], td[j % 2], f"mix {case['m']} after {j + 1} operations", uni=(j % 16 == 15)) for mm_, rf in live):
                return
        return
    if case["k"] == "size":
        pool = {"l2": [L2[0], L2[1], L2[4], L2[3]], "f2": [F2[0], F2[1]], "diff": [DI[0], DI[1]]}[case["fam"]]
        for b, k in sorted(set(itertools.product(case["b"], case["nn"]))):
            r = case["r"]
            specs = []
            for i in range(r):
                s = copy.deepcopy(pool[i % len(pool)])
                s["scale"] = dict(t="analytic") if i % 2 == 0 else dict(t="fixed", val=1.5 + i)
                if i % 3 == 2:
                    s["noise"] = dict(t="hetero", v=(1e-2 * (1 + np.arange(b)[:, None] % 7 + 0.37 * np.arange(k)[None, :] + i)).tolist())
                if isinstance(s["ls"], (int, float)):
                    s["ls"] = s["ls"] * (1 + 0.13 * (i // len(pool)))
                specs.append(s)
            d = data(b, k, F, r, 0.2)
            m = rec.call("construct", MM, *[mk_args(s) for s in specs])
            ref = Ref(specs)
            td = tensors_of(rec, m, d, ref.st[0])
            rec.state((case["fam"], b, k, r, 0)); rec.state((case["fam"], b, k, r, 1))
            if not observe(rec, m, ref, d, td, f"size batch {b} neighbors {k} responses {r}"):
                return
            rec.call("optimize_scale", m.optimize_scale, td[1], td[3])
            ref.train_scale(d)
            if not observe(rec, m, ref, d, td, f"size batch {b} neighbors {k} responses {r}, trained scale"):
                return
        return
    if case["k"] == "fixed":
        for combo in itertools.product(L2 + [dict(L2[1], noise=dict(t="null"))], repeat=3):
            for r in (1, 2, 3):
                cs = combo[:r]
                m = rec.call("construct", MM, *[mk_args(s) for s in cs])
                want = all(not c04.free_names(s) for s in cs)
                rec.state(("fixed", repr(cs))); rec.trace()
                got = rec.call("fixed", m.fixed)
                if got is not want and got != want:
                    rec.fail("fixed", f"{got} instead of {want}")
        return
    if case["k"] == "reject":
        # optimize_scale refuses targets whose response count differs from the number of models
        for r, t in itertools.product((1, 2, 3), (1, 2, 3, 4)):
            m = MM(*[mk_args(L2[i]) for i in range(r)])
            d = data(B, K, F, t, 0.1)
            cr, pr = tensors(L2[0], d[0][d[1]], d[0], d[2])
            rec.state((r, t)); rec.trace()
            with seams.Draws(lambda n, s, i: list(range(s))):
                try:
                    m.optimize_scale(A(pr), A(d[3][d[2]]))
                    ok = True
                except ValueError:
                    ok = False
            if ok != (r == t):
                rec.fail("optimize_scale.response-count", f"{r} models, {t} responses: accepted={ok}")
