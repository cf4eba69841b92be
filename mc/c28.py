"""C28: comparing models. Every ordered pair of a family of specifications, before and after every model was copied, trained and set
to the values of the other, and every pair of live models along operation sequences. The oracle is the reference prediction: models
built alike are equal, models that predict differently are not, comparing never fails and does not depend on the order."""
import copy, itertools
import seams
import numpy as np
from ref import *
import c04

HET = [[[0.01 * (1 + i + j) for j in range(3)] for i in range(4)], [[0.01 * (1 + i + j) + 0.02 * (i == 2 and j == 1) for j in range(3)] for i in range(4)]]
NOISES = [dict(t="homo", v=0.01), dict(t="homo", v=0.02), dict(t="homo", v=0.01, b=[0.001, 0.5]), dict(t="null"), dict(t="hetero", v=HET[0]), dict(t="hetero", v=HET[1]),
          dict(t="hetero", v=[r[:2] for r in HET[0]]), dict(t="hetero", v=HET[0][:1])]
SCALES = [dict(t="fixed", val=1.0), dict(t="fixed", val=2.5), dict(t="analytic"), dict(t="down", down_count=2, iteration_count=2)]


def kernels():
    out = []
    for k, nu in (("rbf", None), ("matern", 0.5), ("matern", 1.5), ("matern", 2.5), ("matern", float("inf"))) + ((("matern", 0.9),) if not TORCH else ()):
        for d, ls, extra in (("iso", 0.8, {}), ("iso", 1.4, {}), ("iso", 0.8, dict(lsb=[0.05, 5.0])), ("diso", 0.8, {}), ("aniso", [0.8, 0.8], {}), ("aniso", [0.8, 1.4], {}), ("aniso", [1.4, 0.8], {}),
                             ("aniso", [0.8, 1.4, 1.0], {}), ("aniso", [0.8], {})):
            s = dict(kernel=k, ls=ls, **extra)
            s["def"] = d
            if nu is not None:
                s["nu"] = nu
            if d == "diso" and k != "rbf":
                continue
            out.append(s)
    out.append(dict(kernel="rbf", ls=0.8, metric="l2")); out.append(dict(kernel="matern", nu=1.5, ls=0.8, metric="F2"))
    out.append(dict(kernel="rbf", ls=[0.8, 1.4], metric="l2", **{"def": "aniso"}))
    if not TORCH:
        out.append(dict(kernel="matern", nu=1.5, nub=[0.2, 4.0], ls=0.8))
    return out


def specs():
    out = [dict(s, noise=NOISES[0], scale=SCALES[0]) for s in kernels()]
    for b in (dict(kernel="rbf", ls=0.8), dict(kernel="matern", nu=1.5, ls=[0.8, 1.4], **{"def": "aniso"})):
        out += [dict(b, noise=n, scale=s) for n in NOISES for s in SCALES if (n, s) != (NOISES[0], SCALES[0])]
    return out


def cases(tier, env):
    n = len(specs())
    out = [dict(k="pairs", i=i, n=n) for i in range(n)]
    for s in range(len(c04.BASE)):
        if TORCH and s == 2:
            continue
        for first in range(len(c04.OPS)):
            out.append(dict(k="hist", s=s, first=first, depth=3 if tier == "thorough" else 2))
        out.append(dict(k="life", s=s, n=3 if tier == "thorough" else 2))
    out.append(dict(k="others"))
    return out


def signature(s, f, sval):
    """what a model with f features predicts with on fixed tensors, or None if it does not apply"""
    if s["def"] == "aniso" and len(s["ls"]) != f:
        return None
    X = pts(9, f, 0.2)
    bi = np.array([1, 3, 5, 8]); nn = nbrs(X, X[bi], 3, skip=bi)
    nz = s["noise"]
    if nz["t"] == "hetero" and np.shape(nz["v"]) != (4, 3):
        return ("hetero", np.shape(nz["v"]))
    mu, v = ref_post(s, ref_k(s, pair_diffs(X, nn)), ref_k(s, cross_diffs(X[bi], X, nn)), vals(9, 1)[nn], nz)
    return np.concatenate([np.ravel(mu), sval * np.ravel(v)])


def differ(a, b, sa, sb):
    """True: they predict differently; False: they are built alike; None: neither"""
    if a == b and sa == sb:
        return False
    for f in (1, 2, 3):
        x, y = signature(a, f, sa), signature(b, f, sb)
        if x is None and y is None:
            continue
        if x is None or y is None:
            return True
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x is not y and (type(x) is not type(y) or x != y):
                return True
            continue
        if not np.allclose(x, y, rtol=1e-5, atol=1e-6):
            return True
    return None


def norm(s):
    s = copy.deepcopy(s); s.setdefault("def", "iso")
    return s


def judge(rec, a, b, want, sig):
    """compares in both orders"""
    got = []
    for x, y in ((a, b), (b, a)):
        try:
            e, n = x == y, x != y
        except Exception as ex:
            rec.fail("equal.raises", f"{type(ex).__name__}: {ex}; {sig}"); return False
        if not isinstance(e, (bool, np.bool_)) or not isinstance(n, (bool, np.bool_)) or bool(e) == bool(n):
            rec.fail("equal.inconsistent", f"== is {e!r}, != is {n!r}; {sig}"); return False
        got.append(bool(e))
    rec.trace()
    if got[0] != got[1]:
        rec.fail("equal.order", f"{got[0]}, and {got[1]} the other way around; {sig}"); return False
    if want is not None and got[0] == want:
        rec.fail("equal.differ" if want else "equal.same", f"{'equal' if got[0] else 'unequal'}; {sig}"); return False
    rec.outcome((want, got[0]))
    return True


def sval(s):
    return float(s["scale"].get("val", 1.0))


def run(case, rec):
    if case["k"] == "others":
        from MuyGPyS.gp import MultivariateMuyGPS
        for s in specs():
            m = mk_model(s)
            for o in (None, 3, 0.8, "model", [], dict(), m.kernel, m.noise, m.scale, object(), MultivariateMuyGPS(mk_args(s))):
                rec.state((repr(s), type(o).__name__))
                judge(rec, m, o, True, f"{s} and {o!r:.60}")
                if rec.fails:
                    return
        return
    if case["k"] == "pairs":
        S = [norm(s) for s in specs()]
        a = S[case["i"]]
        for j, b in enumerate(S):
            rec.state((case["i"], j)); rec.trans()
            ma, mb = mk_model(a), mk_model(b)
            d = differ(a, b, sval(a), sval(b))
            sig = f"{a} and {b}"
            if not judge(rec, ma, mb, d, sig) or not judge(rec, ma, mk_model(a), False, f"{a} twice") or not judge(rec, ma, ma, False, f"{a} and itself"):
                return
            if not judge(rec, copy.deepcopy(ma), mb, d, "copy of " + sig) or not judge(rec, copy.deepcopy(mb), mb, False, f"{b} and its copy"):
                return
            # scales that differ
            for v, m, (x, y) in ((3.5, ma, (a, b)), (3.5, mb, (a, b))):
                rec.call("scale", m.scale._set, A(np.array(v)) if TORCH else v)
                sa, sb = (3.5, sval(b)) if m is ma else (3.5, 3.5)
                if not judge(rec, ma, mb, differ(a, b, sa, sb), f"after setting the scale of {'the first' if m is ma else 'both'}; {sig}"):
                    return
            # the parameters of the second set to those of the first
            if a["kernel"] == b["kernel"] and a["def"] == b["def"] and a.get("metric") == b.get("metric") and np.shape(a["ls"]) == np.shape(b["ls"]) and a["noise"] == b["noise"]:
                ls = [a["ls"]] if a["def"] != "aniso" else a["ls"]
                lsb = a.get("lsb", "fixed")
                for i, v in enumerate(ls):
                    rec.call("set_params", mb.kernel.set_params, **{"length_scale" + (str(i) if a["def"] == "aniso" else ""): P(v, lsb)})
                if a["kernel"] == "matern":
                    rec.call("set_params", mb.kernel.set_params, smoothness=P(a["nu"], a.get("nub", "fixed")))
                if not judge(rec, ma, mb, False, "after setting the parameters of the second to the first's; " + sig):
                    return
        return
    # live models along histories
    base = c04.BASE[case["s"]]
    n = len(c04.OPS)
    words = [[o % n for o in de_bruijn(n, case["n"])]] if case["k"] == "life" else [[case["first"], *r] for r in itertools.product(range(n), repeat=case["depth"] - 1)]
    for word in words:
        st = copy.deepcopy(base); st["sval"] = sval(st); st.setdefault("def", "iso")
        live, hist = [(mk_model(base), st)], []
        first = (mk_model(base), copy.deepcopy(st))
        for o in word:
            if not c04.step(rec, live, c04.OPS[o], len(hist) % 97 if case["k"] == "life" else 0):
                if case["k"] == "life":
                    continue
                break
            hist.append(c04.OPS[o])
            rec.state((case["s"], case["k"], tuple(hist[-3:]), len(hist)))
            every = live + [first]
            for (ma, sa), (mb, sb) in itertools.combinations(every, 2):
                x, y = ({k: v for k, v in q.items() if k not in ("sval", "trained")} for q in (sa, sb))
                # trained scales that agree may differ in their last digits
                d = differ(x, y, sa["sval"], sb["sval"])
                if d is False and (sa.get("trained") or sb.get("trained")) and ma is not mb:
                    d = None
                if not judge(rec, ma, mb, d, f"live models after {hist[-8:]}"):
                    return
            for ma, sa in live:
                if not (TORCH and sa.get("trained")) and not judge(rec, ma, copy.deepcopy(ma), False, f"a live model and its copy after {hist[-8:]}"):
                    return
