"""C05: hyperparameter containers. Complete products of values x bounds x random answers against a legality table, and all
free/fixed layouts of the lists handed to optimizers."""
import itertools, math
import seams
import numpy as np
from ref import *

LEGAL_B = ["fixed", (0.1, 1.0), (0.5, 0.5), [0.1, 2.0], (0, 3), (1e-5, 1e5), (-2.0, -1.0), (-1.0, 1.0), np.array([0.2, 0.9]), (np.float64(0.1), np.float64(4.0)), (np.float32(0.5), 2), (0.0, 1e-3), (1e-9, 2e-9), (0.1, math.inf)]
BAD_B = ["bogus", "Fixed", "", "free", (1.0, 0.1), (0.3, 0.2999), (1.0,), (1.0, 2.0, 3.0), (), [], ("a", "b"), (1.0, "b"), ("a", 1.0), 5, 0.5, None, True, ((0.1, 0.2), (0.3, 0.4)), ([0.1], [0.2]), (None, 1.0), (1.0, None), "ab", (-1.0, -2.0), (math.nan, 1.0), (0.1, math.nan), (math.nan, math.nan), [np.float64("nan"), 2]]
VALS = [-3.0, -1.5, -1.0, 0.0, 1e-9, 1.5e-9, 1e-4, 0.05, 0.1, 0.2, 0.5, 0.9, 0.95, 1.0, 1.2, 2, 2.5, 3, 4.0, 5.0, 1e5, 2e5, np.float64(0.5), np.float32(0.5), 1]
BAD_V = [[0.5], (0.5,), [0.5, 0.6], np.array([0.5]), np.array([0.5, 0.6]), np.array([[0.5]]), [], {"a": 1}]
BAD_S = ["bogus", "Sample", "", "log", "sample_log", "log sample", "uniform"]


def tob(b):
    return b if not isinstance(b, np.ndarray) else b


def cases(tier, env):
    out = []
    for b in range(len(LEGAL_B)):
        out.append(dict(k="scalar", b=b))
    out += [dict(k="badbounds", b=b) for b in range(len(BAD_B))]
    out += [dict(k="sample", kind=k, b=list(b)) for k in ("sample", "log_sample") for b in [(0.1, 1.0), (1e-5, 1e3), (2.0, 2.0), (0.5, 100.0), (1.0, 10.0), (3e-3, 3.0001e-3)]]
    for n in range(1, 5 if tier == "quick" else 7):
        out.append(dict(k="vector", n=n))
    for n in (10, 11, 12, 20, 101):
        out.append(dict(k="vectorbig", n=n))
    out += [dict(k="noise"), dict(k="hetero"), dict(k="scale"), dict(k="deform"), dict(k="set"), dict(k="models")]
    return out


def expect_raise(rec, sig, fn, *a, exc=ValueError, **k):
    rec.trans(); rec.trace()
    try:
        r = fn(*a, **k)
    except exc:
        rec.outcome(sig)
        return True
    except Exception as e:
        rec.fail(sig, f"raised {type(e).__name__} ({e}) rather than {exc.__name__} for {a} {k}")
        return False
    rec.fail(sig, f"accepted {a} {k}: {r}")
    return False


def chk(rec, sig, cond, detail=""):
    rec.trace()
    if not cond:
        rec.fail(sig, detail)
    else:
        rec.outcome(sig)
    return cond


def fnum(x):
    return float(N(x))


def rel(a, b):
    return abs(a - b) <= (1e-12 if FT == "64" else 1e-6) * max(1.0, abs(a), abs(b))


def holds(rec, p, v, b, sig):
    fx = isinstance(b, str)
    chk(rec, sig + ".value", rel(fnum(p()), float(v)), f"{p()} for {v} in {b}")
    chk(rec, sig + ".fixed", p.fixed() is fx, f"{p.fixed()} for bounds {b}")
    if not fx:
        chk(rec, sig + ".bounds", tuple(float(x) for x in p.get_bounds()) == (float(b[0]), float(b[1])), f"{p.get_bounds()} for {b}")


def run(case, rec):
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam, NamedParam, NamedVectorParam, TensorParam, FixedScale, AnalyticScale, DownSampleScale
    from MuyGPyS.gp.noise import HomoscedasticNoise, HeteroscedasticNoise, NullNoise, ShearNoise33
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, l2, F2
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp import MuyGPS
    k = case["k"]
    if k == "scalar":
        b = LEGAL_B[case["b"]]
        fx = isinstance(b, str)
        for v in VALS:
            rec.state((repr(b), repr(v)))
            legal = fx or (float(b[0]) - 0.9e-5 <= float(v) <= float(b[1]) + 0.9e-5)
            margin = not fx and not legal and (float(b[0]) - 1.1e-5 <= float(v) <= float(b[1]) + 1.1e-5)
            if margin:
                continue
            if legal:
                p = rec.call("scalar", ScalarParam, v, b)
                holds(rec, p, v, b, "scalar")
                n = rec.call("named", NamedParam, "nm", ScalarParam(v, b))
                holds(rec, n, v, b, "named")
                chk(rec, "named.name", n.name() == "nm")
                ns, ps, bs = ["x"], [1.0], [(0, 1)]
                n.append_lists(ns, ps, bs)
                if fx:
                    chk(rec, "named.lists", (ns, ps, bs) == (["x"], [1.0], [(0, 1)]), f"{ns} {ps} {bs}")
                else:
                    chk(rec, "named.lists", ns == ["x", "nm"] and rel(fnum(ps[1]), float(v)) and tuple(map(float, bs[1])) == (float(b[0]), float(b[1])) and len(ps) == len(bs) == 2, f"{ns} {ps} {bs}")
                d = {}
                n.populate(d)
                chk(rec, "named.populate", list(d) == ["nm"] and d["nm"] is n)
                got = n.apply_fn(lambda x, nm, **kw: (x, fnum(nm), kw))
                chk(rec, "named.apply", rel(got(3)[1], float(v)) and got(3, nm=9.0)[1] == 9.0 and rel(got(3)[1], float(v)))
            else:
                expect_raise(rec, "scalar.outside-bounds", ScalarParam, v, b)
        if not fx:  # not a number, hence not inside the bounds
            for v in (math.nan, np.float64("nan"), np.float32("nan"), -math.inf, -1e300):
                rec.state((repr(b), repr(v)))
                expect_raise(rec, "scalar.nan", ScalarParam, v, b)
                expect_raise(rec, "noise.nan", HomoscedasticNoise, v, b)
            if float(b[0]) <= 0:
                for cls in (ScalarParam, HomoscedasticNoise, ShearNoise33):
                    expect_raise(rec, "scalar.log-sample-nonpositive", cls, "log_sample", b)
        for v in BAD_V:
            rec.state((repr(b), repr(v)))
            expect_raise(rec, "scalar.nonscalar", ScalarParam, v, b)
        for v in BAD_S:
            rec.state((repr(b), v))
            expect_raise(rec, "scalar.unknown-string", ScalarParam, v, b)
        if fx:
            for v in ("sample", "log_sample"):
                expect_raise(rec, "scalar.sample-fixed", ScalarParam, v, b)
            p = ScalarParam(0.3)
            chk(rec, "scalar.default-fixed", p.fixed() is True)
        return
    if k == "badbounds":
        b = BAD_B[case["b"]]
        for v in (0.5, 1.0, 1, "sample"):
            rec.state((repr(b), v))
            expect_raise(rec, "scalar.bad-bounds", ScalarParam, v, b)
            expect_raise(rec, "noise.bad-bounds", HomoscedasticNoise, v, b)
        return
    if k == "sample":
        lo, hi = case["b"]
        # only meaningful if the answers of the random source are the ones scripted; otherwise bounds only
        for u in [0.0, 1e-12, 0.01, 0.125, 0.25, 0.5, 0.618, 0.75, 0.9, 0.999, 1 - 2 ** -53]:
            for make, sig in ((lambda: ScalarParam(case["kind"], (lo, hi)), "scalar"), (lambda: HomoscedasticNoise(case["kind"], (lo, hi)), "noise"),
                              (lambda: ShearNoise33(case["kind"], (lo, hi)), "shearnoise")):
                with seams.Uniform([u]) as U:
                    p = rec.call("sample", make)
                rec.state((case["kind"], lo, hi, u, sig))
                v = fnum(p())
                chk(rec, f"{sig}.{case['kind']}.within", lo * (1 - 1e-6) - 1e-12 <= v <= hi * (1 + 1e-6) + 1e-12, f"{v} for u={u} in {lo, hi}")
                if U.n == 1:
                    w = lo + u * (hi - lo) if case["kind"] == "sample" else math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo)))
                    t = 1e-9 if FT == "64" else 1e-5
                    chk(rec, f"{sig}.{case['kind']}.value", abs(v - w) <= t * max(1, abs(w)), f"{v} instead of {w} for u={u} in {lo, hi}")
                chk(rec, f"{sig}.{case['kind']}.bounds", tuple(map(float, p.get_bounds())) == (lo, hi) and p.fixed() is False)
        # independent draws for independent parameters
        if hi > lo:
            with seams.Uniform([0.2, 0.8]) as U:
                a, c = ScalarParam(case["kind"], (lo, hi)), ScalarParam(case["kind"], (lo, hi))
            if U.n == 2:
                chk(rec, "sample.independent", fnum(a()) < fnum(c()))
        return
    if k in ("vector", "vectorbig"):
        n = case["n"]
        layouts = itertools.product([0, 1], repeat=n) if k == "vector" else [[1] * n, [0] * n, [i % 2 for i in range(n)], [int(i == n - 1) for i in range(n)], [int(i != 0) for i in range(n)]]
        for free in layouts:
            vals_ = [0.5 + 0.25 * ((i * 7) % n) for i in range(n)]
            bs = [(0.1 + 0.01 * i, 100.0 + i) if f else "fixed" for i, f in enumerate(free)]
            v = VectorParam(*[ScalarParam(x, b) for x, b in zip(vals_, bs)])
            rec.state((n, tuple(free)))
            chk(rec, "vector.values", close(v(), np.array(vals_)) and len(v) == n, f"{v()} for {vals_}")
            chk(rec, "vector.fixed", v.fixed() is (not any(free)), f"{v.fixed()} for {free}")
            nv = NamedVectorParam("length_scale", v)
            chk(rec, "nvector.values", close(nv(), np.array(vals_)), f"{nv()} for {vals_}")
            chk(rec, "nvector.fixed", nv.fixed() is (not any(free)), f"{nv.fixed()} for {free}")
            ns, ps, b2 = [], [], []
            nv.append_lists(ns, ps, b2)
            want = [i for i in range(n) if free[i]]
            chk(rec, "nvector.names", ns == [f"length_scale{i}" for i in want], f"{ns} for {free}")
            chk(rec, "nvector.params", close(np.array([fnum(p) for p in ps]), np.array([vals_[i] for i in want])), f"{ps}")
            chk(rec, "nvector.bounds", [tuple(map(float, b)) for b in b2] == [bs[i] for i in want], f"{b2}")
            d = {}
            nv.populate(d)
            chk(rec, "nvector.populate", list(d) == [f"length_scale{i}" for i in range(n)] and all(rel(fnum(d[f"length_scale{i}"]()), vals_[i]) for i in range(n)), str(list(d)))
            over = {f"length_scale{i}": 7.0 + i for i in range(0, n, 2)}
            for kw in (over, dict(reversed(list(over.items())))):
                chk(rec, "nvector.override", close(nv(**kw), np.array([kw.get(f"length_scale{i}", vals_[i]) for i in range(n)])), f"{nv(**kw)}")
            p, rest = nv.filter_kwargs(other=3, smoothness=1, **over)
            chk(rec, "nvector.filter", rest == dict(other=3, smoothness=1) and all(float(N(p[f"length_scale{i}"])) == float(over.get(f"length_scale{i}", fnum(p[f"length_scale{i}"]))) for i in range(n)) and len(p) == n, f"{p} {rest}")
            # through the kernel and the model, with smoothness and noise
            for ker, nf, zf in itertools.product(("rbf", "matern"), (0, 1), (0, 1)):
                if k == "vectorbig" and (nf or zf) and ker == "rbf":
                    continue
                dfm = Anisotropy(F2 if ker == "rbf" else l2, VectorParam(*[ScalarParam(x, b) for x, b in zip(vals_, bs)]))
                kk = RBF(deformation=dfm) if ker == "rbf" else Matern(smoothness=ScalarParam(1.25, (0.2, 2.0) if nf else "fixed"), deformation=dfm)
                m = MuyGPS(kk, noise=HomoscedasticNoise(1e-3, (1e-5, 1e-1) if zf else "fixed"))
                names, params, bounds = rec.call("get_opt_params", m.get_opt_params)
                wn = [f"length_scale{i}" for i in want]; wp = [vals_[i] for i in want]; wb = [bs[i] for i in want]
                if ker == "matern" and nf:
                    wn.append("smoothness"); wp.append(1.25); wb.append((0.2, 2.0))
                if zf:
                    wn.append("noise"); wp.append(1e-3); wb.append((1e-5, 1e-1))
                got = {nm: (fnum(p), tuple(map(float, N(b)))) for nm, p, b in zip(names, params, bounds)}
                wantd = {a: (b, c) for a, b, c in zip(wn, wp, wb)}
                okk = sorted(names) == sorted(wn) and all(abs(got[x][0] - wantd[x][0]) < 1e-5 * max(1, wantd[x][0]) and np.allclose(got[x][1], wantd[x][1], rtol=1e-5) for x in wn)
                chk(rec, "model.opt_params", okk, f"{got} instead of {wantd}")
                chk(rec, "model.fixed", m.fixed() is (not wn), f"{m.fixed()} with free {wn}")
        return
    if k == "noise":
        for v in (0.0, 1e-14, 1e-5, 0.1, 1.0, 10, np.float64(0.3)):
            for b in ("fixed", (0.0, 100.0), (1e-15, 50.0), [0.0, 20.0]):
                for cls in (HomoscedasticNoise, ShearNoise33):
                    rec.state((v, repr(b), cls.__name__))
                    n = rec.call("noise", cls, v, b)
                    holds(rec, n, v, b, "noise")
                    chk(rec, "noise.name", n.name() == "noise")
        for b in ((-1.0, 1.0), (-2.0, -1.0), (-1e-3, 1.0), (-1e-12, 1.0), (-5, 0)):
            for v in (-0.0005, -1.5, 0.5, 0.0, "sample"):
                rec.state((v, b))
                expect_raise(rec, "noise.negative-bounds", HomoscedasticNoise, v, b)
                expect_raise(rec, "shearnoise.negative-bounds", ShearNoise33, v, b)
        n = NullNoise()
        chk(rec, "null.fixed", n.fixed() is True)
        a = ([], [], [])
        n.append_lists(*a)
        chk(rec, "null.lists", a == ([], [], []))
        chk(rec, "null.value", fnum(n()) == 0.0)
        return
    if k == "hetero":
        for shape in ((1, 1), (2, 3), (4, 1), (1, 5), (3, 3)):
            base = 0.01 * (1 + np.arange(int(np.prod(shape)))).reshape(shape)
            n = rec.call("hetero", HeteroscedasticNoise, A(base))
            rec.state(shape)
            chk(rec, "hetero.value", close(n(), base) and n.fixed() is True)
            chk(rec, "hetero.zeros", close(HeteroscedasticNoise(A(base * 0))(), base * 0))
            for i in range(base.size):
                for neg in (-1.0, -1e-3, -1e-12):
                    x = base.copy().ravel(); x[i] = neg
                    rec.state((shape, i, neg))
                    expect_raise(rec, "hetero.negative", HeteroscedasticNoise, A(x.reshape(shape)))
        for bad in ("sample", "log_sample", 0.5, [0.1, 0.2], [[0.1]], None, (0.1,)):
            expect_raise(rec, "hetero.nonarray", HeteroscedasticNoise, bad)
            expect_raise(rec, "tensor.nonarray", TensorParam, bad)
        t = TensorParam(A(np.ones((2, 2))))
        chk(rec, "tensor.value", close(t(), np.ones((2, 2))) and t.fixed() is True)
        return
    if k == "scale":
        for cls in (FixedScale, AnalyticScale, DownSampleScale):
            chk(rec, "scale.default", fnum(cls()()) == 1.0 and not cls().trained)
            for v in (1e-9, 0.5, 1, 3.5, 1e6, np.float64(2.0), A(np.array([2.5])), A(np.array(0.75))):
                rec.state((cls.__name__, repr(v)))
                s = rec.call("scale", cls, val=v)
                chk(rec, "scale.value", rel(fnum(s()), float(v)), f"{s()} for {v}")
                s2 = cls()
                rec.call("scale.set", s2._set, v)
                chk(rec, "scale.set", rel(fnum(s2()), float(v)) and s2.trained is True)
            for v in (0, 0.0, -1e-12, -1, -5.0, np.float64(-2), [1.0, 2.0], [1.0], (1.0,), np.array([1.0, 2.0]), (), "abc"):
                rec.state((cls.__name__, repr(v)))
                expect_raise(rec, "scale.illegal", cls, val=v)
                s2 = cls(val=4.0)
                expect_raise(rec, "scale.set-illegal", s2._set, v)
                chk(rec, "scale.kept-after-illegal", fnum(s2()) == 4.0)
        for bad in (0, -1, -10, 1.5, 2.0, "3", None, [3]):
            expect_raise(rec, "down.count", DownSampleScale, down_count=bad)
            expect_raise(rec, "down.iterations", DownSampleScale, iteration_count=bad)
        for okc in (1, 2, 10, 100):
            rec.call("down", DownSampleScale, down_count=okc, iteration_count=okc)
        return
    if k == "deform":
        sp_, v2 = ScalarParam(1.0), VectorParam(ScalarParam(1.0), ScalarParam(2.0))
        for bad in (v2, 1.0, None, "sample", [1.0]):
            expect_raise(rec, "isotropy.nonscalar", Isotropy, l2, bad)
        for f in (1, 3, 4, 5):
            a = Anisotropy(l2, v2)
            expect_raise(rec, "anisotropy.dimension", a, A(np.ones((2, 2, f))))
        rec.call("anisotropy", Anisotropy(l2, v2), A(np.ones((2, 2, 2))))
        return
    if k == "set":
        # parameters replaced through set_params take exactly the new value and bounds; the donor is left alone
        for b0, b1 in itertools.product(("fixed", (0.1, 2.0)), repeat=2):
            for v0, v1 in itertools.product((0.5, 1.0, 1.5), repeat=2):
                kk = Matern(smoothness=ScalarParam(v0, b0), deformation=Isotropy(l2, ScalarParam(v0, b0)))
                donor = ScalarParam(v1, b1)
                rec.state((repr(b0), repr(b1), v0, v1))
                kk.set_params(length_scale=donor, smoothness=donor)
                for nm in ("length_scale", "smoothness"):
                    holds(rec, kk._hyperparameters[nm], v1, b1, "set_params." + nm)
                kk.set_params(length_scale=ScalarParam(0.7))
                holds(rec, donor, v1, b1, "set_params.donor")
                holds(rec, kk._hyperparameters["smoothness"], v1, b1, "set_params.other")
                names = list(kk.get_opt_params()[0])
                chk(rec, "set_params.names", names == (["smoothness"] if b1 != "fixed" else []), f"{names}")
        return
    if k == "models":
        m = MuyGPS(Matern())
        chk(rec, "default.fixed", m.fixed() is True and list(m.get_opt_params()[0]) == [] and fnum(m.noise()) == 0.0 and fnum(m.scale()) == 1.0)
        m = MuyGPS(RBF())
        chk(rec, "default.fixed", m.fixed() is True)
        return
