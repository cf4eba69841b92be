"""C09: scale training against the estimator, for every sub-neighborhood the random source can draw, and on size ladders."""
import itertools
import seams
import numpy as np
from ref import *

NZ = ["homo", "hetero", "null", "zero"]
LB = [1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 513, 1000, 1025, 2049]
LK = [1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 15, 16, 17, 20, 30, 31, 32, 33, 50, 64, 65]


def cases(tier, env):
    out = []
    th = tier == "thorough"
    for nz in NZ:
        for k, d, it in [(2, 1, 1), (2, 1, 2), (2, 1, 3), (3, 1, 1), (3, 1, 2), (3, 1, 3), (3, 2, 1), (3, 2, 2), (3, 2, 3), (3, 2, 4), (4, 1, 2), (4, 2, 1), (4, 2, 2), (4, 3, 2), (4, 3, 3), (5, 2, 1), (5, 3, 1),
                         (5, 4, 2), (6, 3, 1), (6, 5, 2)] + ([(4, 2, 3), (5, 2, 2), (5, 3, 2), (6, 3, 2), (4, 3, 4)] if th or nz in ("homo", "hetero") else []):
            out.append(dict(k="down", nz=nz, nn=k, d=d, it=it))
        for it in (1, 2, 3, 4, 5):
            out.append(dict(k="analytic", nz=nz, it=it))
        out.append(dict(k="fixed", nz=nz))
    for b in LB:
        out.append(dict(k="ladder", b=[b], nn=[1, 2, 5] + ([b] if b <= 65 else [])))
    for b in (4097, 5001, 10001):
        out.append(dict(k="ladder", b=[b], nn=[2, 3]))
    for k in LK:
        out.append(dict(k="ladder", b=[1, 2, 3, k], nn=[k]))
    out.append(dict(k="downladder"))
    out.append(dict(k="reject"))
    out += with_layouts([c for c in out if (c["k"] == "ladder" and max(c["b"]) < 40) or (c["k"] == "down" and c["nn"] < 5 and c["it"] == 2) or (c["k"] == "analytic" and c["it"] in (1, 3))])
    return out


def spec(nz, b, k, scale, kern=0):
    s = [dict(kernel="rbf", ls=0.9), dict(kernel="matern", nu=1.5, ls=0.7), dict(kernel="rbf", ls=[0.8, 1.7], **{"def": "aniso"})][kern]
    s["scale"] = scale
    s["noise"] = dict(homo=dict(t="homo", v=0.04), hetero=dict(t="hetero", v=(0.01 * (1 + np.arange(b)[:, None] % 7 + 0.4 * np.arange(k)[None, :])).tolist()),
                      null=dict(t="null"), zero=dict(t="homo", v=0.0))[nz]
    return s


def problem(b, k, f=2):
    n = max(2 * k + 2, 12, min(b, 40))
    train = pts(n, f, span=6.0 if k < 12 else 14.0)
    q = pts(b, f, 0.217, span=6.0 if k < 12 else 14.0)
    return train, q, nbrs(train, q, k), vals(n, 1)[:, 0]


def train_once(rec, m, s, train, q, nn, y):
    cr, pr = tensors(s, q, train, nn)
    pk = A(pr)
    ret = rec.call("optimize_scale", m.optimize_scale, pk, A(y[nn]))
    return ret, pk, A(cr)


def val(m):
    return float(N(m.scale()).reshape(-1)[0])


def after(rec, sig, m, s, want, train, q, nn, y, pk, cr):
    """the model's value, and the variance and mean it predicts right after training"""
    rec.trace()
    rt = 1e-8 if FT == "64" else 1e-3
    if not abs(val(m) - want) <= rt * abs(want):
        rec.fail(sig, f"{val(m)} instead of {want}")
        return False
    Kin, Kc = m.kernel(pk), m.kernel(cr)
    mu, v = m.posterior_mean(Kin, Kc, A(y[nn])), m.posterior_variance(Kin, Kc)
    wm, wv = ref_post(s, ref_k(s, pair_diffs(train, nn)), ref_k(s, cross_diffs(q, train, nn)), y[nn], s["noise"], want)
    if not close(v, wv, rtol=1e-6, atol=1e-8 * want):
        rec.fail(sig + ".variance", diffmsg(v, wv))
        return False
    if not close(mu, wm[:, 0], rtol=1e-6, atol=1e-8):
        rec.fail(sig + ".mean", diffmsg(mu, wm[:, 0]))
        return False
    if not m.scale.trained:
        rec.fail(sig + ".trained", "scale not marked as trained")
    rec.outcome(round(want, 9))
    return True


def down_val(s, P_, y, nn, subsets):
    return float(np.median([ref_scale(P_[:, list(u)][:, :, list(u)], y[nn][:, list(u)], dict(t="null")) for u in subsets]))


def run(case, rec):
    k_ = case["k"]
    if k_ == "down":
        k, d, it = case["nn"], case["d"], case["it"]
        b = 3
        s = spec(case["nz"], b, k, dict(t="down", down_count=d, iteration_count=it, val=1.7))
        train, q, nn, y = problem(b, k)
        Kin = ref_k(s, pair_diffs(train, nn))
        P_ = Kin + noise_diag(s["noise"], b, k)[:, :, None] * np.eye(k)
        subs = list(itertools.combinations(range(k), d))
        each = {u: ref_scale(P_[:, list(u)][:, :, list(u)], y[nn][:, list(u)], dict(t="null")) for u in subs}
        orders = {u: list(itertools.permutations(u)) for u in subs}
        m = rec.call("construct", mk_model, s)
        possible = None
        for seq in itertools.product(subs, repeat=it):
            # draws come in any order: rotate through the orders of each subset
            for o in range(max(len(orders[u]) for u in seq) if it == 1 else 1):
                pick = [orders[u][(o + 2 * i) % len(orders[u])] for i, u in enumerate(seq)]
                with seams.Draws(lambda n, sz, i: pick[i % it][:sz] if sz <= d else list(range(sz)), d) as dr:
                    ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
                rec.state((case["nz"], k, d, it, seq, o))
                w = float(np.median([each[u] for u in seq]))
                if not dr.calls:      # another way of drawing: the value must be one that some draw gives
                    possible = possible or {round(float(np.median([each[u] for u in sq])), 10) for sq in itertools.product(subs, repeat=it)}
                    near = min(possible, key=lambda x: abs(x - val(m)))
                    w = near
                else:
                    if len(dr.calls) != it or any(c[1] != d or c[2] or len(c[0]) != k for c in dr.calls):
                        rec.fail("down.draws", f"drew {[(c[1], len(c[0]), c[2]) for c in dr.calls]}, expected {it} draws of {d} distinct of {k}")
                        return
                if ret is not m:
                    rec.fail("optimize_scale.returns", "the model itself is documented to be returned")
                if not after(rec, "down", m, s, w, train, q, nn, y, pk, cr):
                    rec.fail("down.at", f"draws {pick}")
                    return
        return
    if k_ == "analytic":
        it = case["it"]
        for kern in (0, 1, 2):
            for b, k in itertools.product((1, 2, 3, 4), (1, 2, 3, 4, 6)):
                s = spec(case["nz"], b, k, dict(t="analytic", iteration_count=it, val=0.6), kern)
                train, q, nn, y = problem(b, k)
                m = rec.call("construct", mk_model, s)
                w = ref_scale(ref_k(s, pair_diffs(train, nn)), y[nn], s["noise"], it)
                for rep in range(2):                # and again: same answer
                    ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
                    rec.state((case["nz"], it, kern, b, k, rep))
                    if not after(rec, "analytic", m, s, w, train, q, nn, y, pk, cr):
                        rec.fail("analytic.at", f"batch {b} neighbors {k} kernel {kern} repeat {rep}")
                        return
                # other targets afterwards: the estimate belongs to the new targets
                ret, pk, cr = train_once(rec, m, s, train, q, nn, 2.5 * y)
                if not after(rec, "analytic.retrain", m, s, 6.25 * w if it == 1 else ref_scale(ref_k(s, pair_diffs(train, nn)), 2.5 * y[nn], s["noise"], it), train, q, nn, 2.5 * y, pk, cr):
                    return
        return
    if k_ == "fixed":
        for v in (0.25, 1.0, 3.0):
            for b, k in itertools.product((1, 3, 4), (1, 3, 4)):
                s = spec(case["nz"], b, k, dict(t="fixed", val=v))
                train, q, nn, y = problem(b, k)
                m = rec.call("construct", mk_model, s)
                for _ in range(2):
                    ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
                    rec.state(("fixed", case["nz"], v, b, k))
                    after(rec, "fixed", m, s, v, train, q, nn, y, pk, cr)
        return
    if k_ == "ladder":
        for b, k in itertools.product(case["b"], case["nn"]):
            for it in (1, 3):
                s = spec("homo" if b * k % 2 else "hetero", b, k, dict(t="analytic", iteration_count=it), (b + k) % 3)
                train, q, nn, y = problem(b, k)
                m = rec.call("construct", mk_model, s)
                ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
                rec.state(("ladder", b, k, it))
                if not after(rec, "analytic.ladder", m, s, ref_scale(ref_k(s, pair_diffs(train, nn)), y[nn], s["noise"], it), train, q, nn, y, pk, cr):
                    rec.fail("analytic.at", f"batch {b} neighbors {k}")
            for d in sorted({1, k // 2, k - 1} - {0, k}):
                s = spec("homo" if b * k % 2 else "hetero", b, k, dict(t="down", down_count=d, iteration_count=2), (b + k) % 3)
                m = rec.call("construct", mk_model, s)
                pick = [sorted((i * 7 + 3 * j) % k for j in range(k))[:0] or [(i + j) % k for j in range(d)] for i in range(2)]
                with seams.Draws(lambda n, sz, i: pick[i], d) as dr:
                    ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
                rec.state(("dladder", b, k, d))
                if dr.calls:
                    P_ = ref_k(s, pair_diffs(train, nn)) + noise_diag(s["noise"], b, k)[:, :, None] * np.eye(k)
                    if not after(rec, "down.ladder", m, s, down_val(s, P_, y, nn, [sorted(p) for p in pick]), train, q, nn, y, pk, cr):
                        rec.fail("down.at", f"batch {b} neighbors {k} down {d}")
        return
    if k_ == "downladder":
        # the number of iterations, odd and even
        for it in (1, 2, 3, 4, 5, 6, 7, 10, 11):
            k, d, b = 7, 3, 4
            s = spec("homo", b, k, dict(t="down", down_count=d, iteration_count=it))
            train, q, nn, y = problem(b, k)
            m = mk_model(s)
            pick = [[(2 * i + 3 * j + (i // 3)) % k for j in range(d)] for i in range(it)]
            with seams.Draws(lambda n, sz, i: pick[i], d) as dr:
                ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
            rec.state(("it", it))
            if dr.calls:
                P_ = ref_k(s, pair_diffs(train, nn)) + 0.04 * np.eye(k)
                after(rec, "down.iterations", m, s, down_val(s, P_, y, nn, [sorted(p) for p in pick]), train, q, nn, y, pk, cr)
        # the documented defaults: 10 neighbors, 10 iterations; one iteration of the analytic estimate
        from MuyGPyS.gp.hyperparameter import AnalyticScale, DownSampleScale
        for k, kw, d, it in [(11, {}, 10, 10), (13, {}, 10, 10), (11, dict(iteration_count=3), 10, 3), (9, dict(down_count=4), 4, 10)]:
            s = spec("homo", 3, k, dict(t="down", down_count=d, iteration_count=it))
            train, q, nn, y = problem(3, k)
            m = mk_model(s)
            m.scale = rec.call("DownSampleScale", DownSampleScale, **kw)
            m._make()
            pick = [[(i * (i + 1) // 2 + j) % k for j in range(d)] for i in range(it)]
            with seams.Draws(lambda n, sz, i: pick[i % it], d) as dr:
                ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
            rec.state(("defaults", k, repr(kw)))
            if dr.calls:
                P_ = ref_k(s, pair_diffs(train, nn)) + 0.04 * np.eye(k)
                after(rec, "down.defaults", m, s, down_val(s, P_, y, nn, [sorted(p) for p in pick]), train, q, nn, y, pk, cr)
        s = spec("homo", 3, 4, dict(t="analytic"))
        train, q, nn, y = problem(3, 4)
        m = mk_model(s)
        m.scale = rec.call("AnalyticScale", AnalyticScale)
        m._make()
        ret, pk, cr = train_once(rec, m, s, train, q, nn, y)
        rec.state("analytic defaults")
        after(rec, "analytic.defaults", m, s, ref_scale(ref_k(s, pair_diffs(train, nn)), y[nn], s["noise"], 1), train, q, nn, y, pk, cr)
        return
    # neighborhoods too small to down-sample raise
    for k, d in [(1, 1), (2, 2), (2, 3), (3, 3), (3, 4), (3, 10)]:
        s = spec("homo", 2, k, dict(t="down", down_count=d, iteration_count=2))
        train, q, nn, y = problem(2, k)
        m = mk_model(s)
        cr, pr = tensors(s, q, train, nn)
        rec.state(("reject", k, d)); rec.trans(); rec.trace()
        try:
            m.optimize_scale(A(pr), A(y[nn]))
            rec.fail("down.reject", f"down-sampling {d} of {k} neighbors is accepted and gives {val(m)}")
        except ValueError:
            pass
