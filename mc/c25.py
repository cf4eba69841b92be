"""C25: configuration. Every backend/precision setting by environment variable, every sequence of config updates and every flag
combination is applied in a fresh process; the state machine of the documentation says which backend and precision the components
must then use (observed on the types and values of everything they produce) or that they must refuse. Then the single precision
reruns of the numerical explorations."""
import importlib, itertools, json, os, subprocess, sys
import numpy as np
from ref import *
import core

BARE = os.environ.get("VERIF_BARE") == "1"
SUBS = ["c01", "c02", "c03", "c08", "c20"]
BK = [None, "numpy", "torch", "mpi", "jax", "", "bogus", "Torch"]
FTS = [None, "32", "64", "16", "", "float32", "6"]
HAVE = {"venv": {"numpy", "torch"}, "mpi": {"numpy", "mpi"}}
ACTS = [("muygpys_backend", v) for v in ("numpy", "torch", "mpi", "jax", "bogus", None)] + [("muygpys_ftype", v) for v in ("32", "64", "16", 32, 64, None)]
SPECS = {"rbf": dict(kernel="rbf", ls=0.8, noise=dict(t="homo", v=0.03)), "m15": dict(kernel="matern", nu=1.5, ls=0.9, noise=dict(t="homo", v=0.05)),
         "m25": dict(kernel="matern", nu=2.5, ls=0.7, noise=dict(t="homo", v=0.04)), "aniso": dict(kernel="rbf", ls=[0.8, 1.3], noise=dict(t="homo", v=0.03), **{"def": "aniso"})}


def plans(tier):
    out = []
    e = lambda b, f: {k: v for k, v in (("MUYGPYS_BACKEND", b), ("MUYGPYS_FTYPE", f)) if v is not None}  # noqa
    for py in ("venv", "mpi"):
        for b, f in itertools.product(BK, FTS):
            out.append(dict(py=py, env=e(b, f)))
    for env in ((None, None), ("torch", "32"), ("numpy", "64")):
        for r in range(1, 3 if tier == "quick" else 4):
            for seq in itertools.product(ACTS, repeat=r):
                if r == 3 and env != (None, None):
                    continue
                out.append(dict(py="venv", env=e(*env), steps=[["update", n, v] for n, v in seq]))
    for seq in itertools.product(ACTS, repeat=1):
        out.append(dict(py="mpi", env={}, steps=[["update", n, v] for n, v in seq]))
    for env in ((None, None), ("torch", "32"), ("numpy", "64")):
        for b, f in itertools.product((None, "numpy", "torch", "bogus", "jax"), (None, "32", "64", "16")):
            argv = [x for x in (b and f"--muygpys_backend={b}", f and f"--muygpys_ftype={f}") if x]
            out.append(dict(py="venv", env=e(*env), argv=argv, steps=[["parse"]]))
            out.append(dict(py="venv", env=e(*env), argv=argv, steps=[]))
            out.append(dict(py="venv", env=e(*env), argv=["--"] + argv, steps=[["parse"]]))
            if b in (None, "torch") and f in (None, "32"):
                for a in ACTS:
                    out.append(dict(py="venv", env=e(*env), argv=argv, steps=[["parse"], ["update", *a]]))
                    out.append(dict(py="venv", env=e(*env), argv=argv, steps=[["update", *a], ["parse"]]))
    return out


def cases(tier, env):
    if BARE:
        out = []
        p = plans(tier)
        for py in ("venv", "mpi"):
            q = [x for x in p if x["py"] == py]
            for i in range(0, len(q), 12):
                out.append(dict(k="plans", py=py, plans=q[i:i + 12]))
        out.append(dict(k="ranks"))
        return out
    out = []
    for mod in SUBS:
        for i, c in enumerate(importlib.import_module(mod).cases(tier, env)):
            d = dict(k="sub", mod=mod, case=c)
            if "mem" in c:
                d["mem"] = c["mem"]
            out.append(d)
    return out


def world():
    X = pts(12, 2) + 0.2 * np.sin(1.7 * np.arange(12)[:, None] ** 2 + np.arange(2))
    T = pts(5, 2, 0.37)
    bi = np.array([3, 7, 1, 10])
    nn = nbrs(X, X[bi], 3, skip=bi); tn = nbrs(X, T, 3)
    return dict(X=X.tolist(), T=T.tolist(), y=vals(12, 1)[:, 0].tolist(), bi=bi.tolist(), nn=nn.tolist(), ti=list(range(5)), tn=tn.tolist(), all=nbrs(X, X, 3, skip=np.arange(12)).tolist(), specs=SPECS)


def expected(w):
    X, T, y = np.array(w["X"]), np.array(w["T"]), np.array(w["y"])
    bi, nn, tn = np.array(w["bi"]), np.array(w["nn"]), np.array(w["tn"])
    out = {}
    for nm, st in SPECS.items():
        p, c = pair_diffs(X, nn), cross_diffs(X[bi], X, nn)
        K, C = ref_k(st, p), ref_k(st, c)
        mu, v = ref_post(st, K, C, y[nn], st["noise"])
        out[f"{nm}.kernel"], out[f"{nm}.crosscov"], out[f"{nm}.mean"], out[f"{nm}.variance"] = K, C, mu[:, 0], v
        out[f"{nm}.mse"] = np.array(ref_mse(mu[:, 0], y[bi]))
        if nm != "m25":
            s = ref_scale(K, y[nn], st["noise"])
            out[f"{nm}.scale"] = np.array(s); out[f"{nm}.scaled-variance"] = v * s
            out[f"{nm}.lool"] = np.array(ref_lool(mu[:, 0], y[bi], v, s)); out[f"{nm}.objective"] = -out[f"{nm}.lool"]
        K, C = ref_k(st, pair_diffs(X, tn)), ref_k(st, cross_diffs(T, X, tn))
        out[f"{nm}.prediction"] = ref_post(st, K, C, y[tn], st["noise"])[0][:, 0]
    return out


def model(plan, res, rec):
    """(backend, ftype) the components must use, or None when something must refuse"""
    have = HAVE[plan["py"]]
    b = plan["env"].get("MUYGPYS_BACKEND", "numpy"); f = plan["env"].get("MUYGPYS_FTYPE", "64")
    if b not in ("numpy", "torch", "mpi", "jax") or f not in ("32", "64") or b not in have:
        return "import"
    for st, lg in zip(plan.get("steps", []), res.get("log", [])):
        if st[0] == "parse":
            fb = ff = None
            for a in plan.get("argv", []):
                if a == "--":
                    break
                if a.startswith("--muygpys_backend="):
                    fb = a.split("=")[1]
                if a.startswith("--muygpys_ftype="):
                    ff = a.split("=")[1]
            legal = lambda x, y: x in (None, "numpy", "torch", "mpi", "jax") and y in (None, "32", "64")  # noqa
            if lg is not None:
                if legal(fb, ff) and legal(b, f):
                    rec.fail("flags.refused", f"{plan}: {lg}")
                return "refused"
            b, f = fb or b, ff or f
        else:
            _, n, v = st
            if lg is None:
                if n == "muygpys_backend":
                    b = v
                else:
                    f = v
            elif (n == "muygpys_backend" and v in have) or (n == "muygpys_ftype" and v in ("32", "64")):
                rec.fail("update.refused", f"{plan}: {lg}")
                return "refused"
    if b not in have or not isinstance(f, str) or f not in ("32", "64"):
        return None
    return b, f


def run(case, rec):
    if case["k"] == "sub":
        m = importlib.import_module(case["mod"])
        add = rec.state
        rec.state = lambda key: add((case["mod"], key))
        try:
            m.run(case["case"], rec)
        finally:
            del rec.state
            rec.fails = [(f"{case['mod']}:{s}", d) for s, d in rec.fails]
        return
    return globals()["run_" + case["k"]](case, rec)


def child(py, plans_, w, pre=()):
    exe = core.PY if py == "venv" else core.PYMPI
    env = {k: v for k, v in os.environ.items() if not k.startswith("MUYGPYS") and k != "PYTHONPATH"}
    env["VERIF_SRC"] = core.REPO + "/src"
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([*pre, exe, os.path.join(os.path.dirname(__file__), "c25_child.py")], input=json.dumps(dict(plans=plans_, input=w)), capture_output=True, text=True, env=env, timeout=600)
    if not p.stdout.strip():
        raise RuntimeError(f"child failed: {p.stderr[-1500:]}")
    return json.loads(p.stdout)


def check(plan, res, want, w, ref, rec):
    b, f = want
    tag = f"env={plan['env']} argv={plan.get('argv')} steps={plan.get('steps')}"
    if res["stage"] != "ok":
        rec.fail("selection.unusable", f"{tag}: {res.get('stage')} {res.get('error')} {res.get('trace', '')}")
        return
    ft = "float" + f
    for n, (lib, dt, val) in res["probe"].items():
        rec.trace()
        if (lib == "torch") != (b == "torch"):
            if lib in ("float", "int") and n.endswith((".lool", ".mse", ".objective", ".scale")):
                continue
            rec.fail(f"backend.{n}", f"{n} is a {lib} value under backend {b}; {tag}")
            return
        w_ = "int64" if n.startswith("i:") else ft
        if lib in ("numpy", "torch") and dt != w_ and not (n.split(".")[-1] in ("lool", "mse", "objective") and dt.startswith("float")):
            rec.fail(f"dtype.{n}", f"{n} is {dt} instead of {w_} under backend {b}; {tag}")
            return
        if n in ref:
            g = np.array(val, float).reshape(np.shape(ref[n]))
            t = 1e-8 if f == "64" else 2e-3
            if not np.allclose(g, ref[n], rtol=t, atol=t):
                rec.fail(f"value.{n}", f"{n}: {diffmsg(g, ref[n])} under {b}/{f}; {tag}")
                return
            if f == "64" and n.endswith((".mean", ".kernel")) and lib == "numpy" and np.array_equal(g, g.astype(np.float32)):
                rec.fail(f"value.{n}.rounded", f"{n} carries single precision values under 64 bits; {tag}")
                return


def run_plans(case, rec):
    w = world(); ref = expected(w)
    results = child(case["py"], case["plans"], w)
    for plan, res in zip(case["plans"], results):
        rec.trans(1 + len(plan.get("steps", []))); rec.trace()
        want = model(plan, res, rec)
        rec.state(json.dumps(plan))
        rec.outcome((repr(want), res.get("stage")))
        tag = f"env={plan['env']} argv={plan.get('argv')} steps={plan.get('steps')}"
        if res["stage"] == "crash":
            rec.fail("selection.crash", f"{tag}: {res['error']}")
        elif want == "import":
            if res["stage"] != "import":
                rec.fail("environment.silently-accepted", f"{tag}: state {res.get('state')}, {res['stage']}")
        elif want == "refused":
            pass
        elif want is None:
            if res["stage"] == "ok":
                rec.fail("selection.silently-accepted", f"{tag}: {[res['state']]} gives {res['probe']['array'][:2]}")
        else:
            if res["stage"] == "import":
                rec.fail("selection.unusable", f"{tag}: {res['error']}")
            else:
                check(plan, res, want, w, ref, rec)


def run_ranks(case, rec):
    """the mpi backend distributes, the others do not, however they are chosen"""
    import shutil
    exe = shutil.which("mpirun.openmpi") or shutil.which("mpirun")
    if exe is None:
        rec.note("no mpirun")
        return
    w = world()
    for plan, n in ((dict(env={"MUYGPYS_BACKEND": "mpi"}), 2), (dict(env={}, steps=[["update", "muygpys_backend", "mpi"]]), 2), (dict(env={}), 4), (dict(env={"MUYGPYS_BACKEND": "mpi"}, steps=[["update", "muygpys_backend", "numpy"]]), 4)):
        script = ("import sys,json,os\nsys.path.insert(0, os.environ['VERIF_SRC'])\nfrom MuyGPyS import config\n"
                  "for s in json.loads(sys.argv[1]): config.update(s[1], s[2])\n"
                  "import numpy as np\nfrom MuyGPyS.gp.deformation import Isotropy, l2\nfrom MuyGPyS.gp.hyperparameter import Parameter\n"
                  "w=json.load(open(sys.argv[2]))\nt=Isotropy(l2, Parameter(1.0)).pairwise_tensor(np.array(w['X']), np.array(w['nn']))\nos.write(1, (f'LEN{t.shape[0]}\\n').encode())\n")
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            json.dump(w, open(d + "/w.json", "w"))
            env = {k: v for k, v in os.environ.items() if not k.startswith("MUYGPYS") and k != "PYTHONPATH"}
            env.update(plan["env"], VERIF_SRC=core.REPO + "/src", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([exe, "--oversubscribe", "-n", "2", core.PYMPI, "-c", script, json.dumps(plan.get("steps", [])), d + "/w.json"], capture_output=True, text=True, env=env, timeout=300)
        got = [int(x[3:]) for x in p.stdout.split() if x.startswith("LEN")]
        rec.trans(); rec.trace(); rec.state(json.dumps(plan))
        if got != [n, n]:
            rec.fail("backend.ranks", f"{plan}: pieces {got} instead of {[n, n]}; {p.stderr[-300:]}")
