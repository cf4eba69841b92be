"""C29: runs repeat. Every public operation is run from several seeds of numpy's random source, after every other operation, and with
every other random source scrambled: the answer is a function of its inputs and that seed. Operations that choose nothing leave the random
source where it was; no operation, and not importing the library, changes process-wide settings."""
import json, os, random, subprocess, sys, warnings
import seams
import numpy as np
from ref import *
from ref import P
import c18, c23
from c29_state import settings, draws


class NoScript:
    """the real random source stays in place"""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


DIMS = [(4, 3, 2), (3, 3, 1)]
SEEDS = (0, 1, 2, 12345)
MAY_DRAW = ("samplers", "down.", "objective.m25", "optimize.", "real.", "do_", "mini", "sample.", "knots.", "scale.m25")


def table(d):
    o = c23.ops(d)

    def sample(w, kind, cls):
        b = [0.1, 10.0]
        from MuyGPyS.gp.hyperparameter import Parameter, VectorParameter
        if cls == "one":
            return [N(Parameter(kind, b)())]
        if cls == "vector":
            return [N(q()) for q in VectorParameter(Parameter(kind, b), Parameter(kind, b))._params]
        q = Parameter(1.0, b); q._set(Parameter(kind, b))
        return [N(q())]
    for kind in ("sample", "log_sample"):
        for cls in ("one", "vector", "set"):
            o[f"sample.{kind}.{cls}"] = lambda w, kind=kind, cls=cls: sample(w, kind, cls)

    from MuyGPyS.gp.hyperparameter.experimental import sample_knots
    for f, kc in ((1, 2), (1, 5), (2, 3), (3, 7)):
        o[f"knots.{f}.{kc}"] = lambda w, f=f, kc=kc: [N(sample_knots(f, kc))]

    def samplers(which):
        def go(w):
            import MuyGPyS.optimize.batch as B
            return {"batch": lambda: B.sample_batch(w.lk, 5, w.n), "balanced": lambda: B.get_balanced_batch(w.lk, w.a["lab"], 4),
                    "balanced2": lambda: B.sample_balanced_batch(w.lk, w.a["lab"], 4), "full": lambda: B.full_filtered_batch(w.lk, w.a["lab"])}[which]()
        return go
    for s in ("batch", "balanced", "balanced2"):
        o["samplers." + s] = samplers(s)
    o["filtered"] = samplers("full")

    def down(w, iteration_count):
        m = mk_model(dict(kernel="rbf", ls=0.8, noise=dict(t="homo", v=0.03), scale=dict(t="down", down_count=1, iteration_count=iteration_count)))
        m = m.optimize_scale(w.a["pF2"], w.a["nt1"])
        return [N(m.scale())]
    for i in (1, 2, 5):
        o[f"down.{i}"] = lambda w, i=i: down(w, i)
    if not TORCH:
        def bayes(w, nm, **kw):
            pr, cr = w.diffs(nm)
            with seams.fake_bayes(search):
                return found(c18.opt_of("bayes")(w.m[nm], w.a["bt1"], w.a["nt1"], cr, pr, **kw))
        for nm in ("rbf", "rbfa"):
            for rs in (1, 7):
                o[f"real.bayes.{nm}.{rs}"] = lambda w, nm=nm, rs=rs: bayes(w, nm, random_state=rs, init_points=2, n_iter=2, allow_duplicate_points=True)

        def mini(w, keep, **kw):
            from MuyGPyS.optimize.experimental.chassis import optimize_from_tensors_mini_batch
            with seams.fake_bayes(search):
                r = optimize_from_tensors_mini_batch(w.m["rbf"], w.a["X"], w.a["y"], w.kk, 4, w.n, num_epochs=2, keep_state=keep, probe_previous=True, verbose=False, **kw)
            return found(r[0])
        for keep in (False, True):
            o[f"mini.{keep}"] = lambda w, keep=keep: mini(w, keep, random_state=3, init_points=2, n_iter=1, allow_duplicate_points=True)
    return o


def search(*a, **k):
    """bayes_opt's optimizer, its surrogate replaced by draws from the random state it was given (the surrogate's fit amplifies rounding)"""
    class Search(seams.RealBO):
        def suggest(self, *aa, **kk):
            return self._space.array_to_params(self._space.random_sample())
    return Search(*a, **dict(k, verbose=0))


def found(m):
    out = []
    for n in sorted(m.kernel._hyperparameters):
        out.append(np.array(N(m.kernel._hyperparameters[n]())))
    if not type(m.noise).__name__.startswith("Null"):
        out.append(np.array(N(m.noise())))
    out.append(np.array(N(m.scale())))
    return out


def scramble(i):
    """every source other than numpy's"""
    random.seed(1000 + i)
    t = sys.modules.get("torch")
    if t is not None and hasattr(t, "manual_seed"):
        t.manual_seed(1000 + i)


def cases(tier, env):
    out = [dict(k="import")]
    for d in range(len(DIMS) if tier == "thorough" else 1):
        out += [dict(k="op", d=d, op=n) for n in sorted(table(DIMS[d]))]
    return out


def imports(rec):
    """importing every module of the library leaves the settings alone (third-party modules are imported first)"""
    here = os.path.dirname(os.path.abspath(__file__))
    code = f"""
import sys, json, os, importlib, pkgutil
sys.path.insert(0, {here!r})
import numpy, numpy.random, scipy, scipy.optimize, scipy.special, scipy.stats, scipy.stats.qmc, sklearn, sklearn.neighbors, sklearn.gaussian_process
for m in ("hnswlib", "bayes_opt", "torch", "absl.flags", "absl.logging", "matplotlib", "pandas", "tqdm"):
    try: importlib.import_module(m)
    except Exception: pass
import c29_state as S
before, drew = S.settings(), S.draws()
import MuyGPyS
names = [n for _, n, _ in pkgutil.walk_packages(MuyGPyS.__path__, "MuyGPyS.", onerror=lambda n: None)]
done = []
for n in names:
    if "_test" in n or "jax" in n or ".mpi" in n: continue
    try: importlib.import_module(n)
    except ImportError: continue
    done.append(n)
after = S.settings()
bad = [k for k in before if before[k] != after[k]]
print(json.dumps(dict(bad=[(k, repr(before[k])[:300], repr(after[k])[:300]) for k in bad], drew=drew != S.draws(), n=len(done), names=done)))
"""
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ), timeout=300)
    rec.trans()
    if p.returncode:
        rec.fail("import.error", p.stderr[-500:]); return
    d = json.loads(p.stdout.strip().splitlines()[-1])
    for n in d["names"]:
        rec.state(n)
    rec.trace()
    if d["bad"]:
        rec.fail("import.settings", f"importing the library changes {d['bad']}")
    if d["drew"]:
        rec.fail("import.random", "importing the library moves numpy's random source")


def run(case, rec):
    if case["k"] == "import":
        return imports(rec)
    seams_draws, seams.Draws = seams.Draws, NoScript
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            explore(case, rec)
    finally:
        seams.Draws = seams_draws


def explore(case, rec):
    d = DIMS[case["d"]]
    T = table(d)
    nm = case["op"]
    may = nm.startswith(MAY_DRAW)
    w = c23.World(d)
    c23.full_nn(w)
    np.random.seed(99)
    s0, r0 = settings(), draws()
    rec.call(nm, T[nm], w)                     # the first use in this process, or not
    s1, r1 = settings(), draws()
    bad = [k for k in s0 if s0[k] != s1[k]]
    if bad:
        rec.fail(f"{nm}.settings", f"the first {nm} changes {[(k, repr(s0[k])[:200], repr(s1[k])[:200]) for k in bad]}"); return
    if not may and r0 != r1:
        rec.fail(f"{nm}.draws", f"the first {nm} moves numpy's random source though it chooses nothing"); return
    want, after = {}, {}

    def once(seed, what, i):
        scramble(i)
        np.random.seed(seed)
        s0, r0 = settings(), draws()
        res = rec.call(nm, T[nm], w)
        s1, r1 = settings(), draws()
        rec.trace()
        bad = [k for k in s0 if s0[k] != s1[k]]
        if bad:
            rec.fail(f"{nm}.settings", f"{nm} changes {[(k, repr(s0[k])[:200], repr(s1[k])[:200]) for k in bad]}"); return False
        if not may and r0 != r1:
            rec.fail(f"{nm}.draws", f"{nm} moves numpy's random source though it chooses nothing"); return False
        c = c23.copies(res)
        if seed not in want:
            want[seed], after[seed] = c, (r0 != r1, r1)
        elif not c23.same_values(want[seed], c):
            rec.fail(f"{nm}.repeat", f"{nm} answers differently from the same seed {seed} {what}"); return False
        elif after[seed][1] != r1:
            rec.fail(f"{nm}.repeat", f"{nm} leaves numpy's random source elsewhere when run from the same seed {seed} {what}"); return False
        return True
    i = 0
    for seed in SEEDS + SEEDS:
        i += 1
        rec.state((case["d"], nm, seed))
        if not once(seed, "twice", i):
            return
    if may:
        moved = [after[s][1] for s in SEEDS if after[s][0]]
        vary = any(not c23.same_values(want[SEEDS[0]], want[s]) for s in SEEDS[1:])
        if len(set(moved)) != len(moved):
            rec.fail(f"{nm}.reseeds", f"{nm} leaves numpy's random source in the same state whatever the seed"); return
        if vary and len(moved) < len(SEEDS):
            rec.fail(f"{nm}.reseeds", f"{nm} depends on the seed but does not advance numpy's random source"); return
        rec.outcome((nm, "varies" if vary else "constant"))
    for other in sorted(T):
        np.random.seed(5)
        rec.call(other, T[other], w)
        i += 1
        rec.state((case["d"], nm, other))
        if not once(SEEDS[i % len(SEEDS)], f"after {other}", i):
            return
