"""C14: distributed = serial. The real MPI code runs on virtual ranks; every schedule is explored (mpisim)."""
import importlib, itertools, json, os, pickle, subprocess, sys
import numpy as np
import seams  # noqa: F401  (before the library)
import ref

PROP = "C14"
MODES = ("eager", "sync")
BIG = (10, 11, 12, 13, 16, 17, 20, 25, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 257, 513, 1025)
SUB = ("MuyGPyS", "MuyGPyS.gp", "MuyGPyS.optimize", "MuyGPyS.optimize.loss", "MuyGPyS.gp.tensors", "MuyGPyS.gp.hyperparameter.experimental")
_ready = False


def comps(b, n):
    """all ways to spread b rows over n ranks"""
    if n == 1:
        yield [b]
        return
    for i in range(b + 1):
        for rest in comps(b - i, n - 1):
            yield [i] + rest


def setup():
    """import the serial library, then the virtual MPI world"""
    global _ready, mpisim, serial
    if _ready:
        return
    import mpisim as ms
    import MuyGPyS  # noqa: F401
    import mpiprog as mp
    from MuyGPyS import config
    assert config.state.backend == "numpy", "serial oracle must run on numpy"
    for name in SUB:
        importlib.import_module(name)
    mpisim, serial = ms, mp
    ms.install()
    _ready = True


def rank_fn(case):
    def fn(rank, size):
        old = os.environ.get("MUYGPYS_BACKEND")
        os.environ["MUYGPYS_BACKEND"] = "mpi"
        try:
            import mpiprog
            for name in SUB:
                importlib.import_module(name)
        finally:
            if old is None:
                del os.environ["MUYGPYS_BACKEND"]
            else:
                os.environ["MUYGPYS_BACKEND"] = old
        assert mpiprog.MPI_ON
        return mpiprog.run(case, rank, size)
    return fn


def run_serial(case):
    np.random.seed(1000)
    return serial.run(case, 0, 1)


class Named:
    """adds the failing program to every detail"""

    def __init__(self, rec, case):
        self.rec, self.case = rec, case

    def fail(self, sig, detail):
        self.rec.fail(sig, f"{detail} -- program {json.dumps(self.case)}")

    def __getattr__(self, k):
        return getattr(self.rec, k)


def judge(case, rec, want, ranks, tag):
    """ranks: list of ('ok'|'raise', value) per rank"""
    rec = Named(rec, case)
    prog = case["prog"]
    rt, at = 1e-6, 1e-9
    bad = [f"rank {r}: {v}" for r, (s, v) in enumerate(ranks) if s != "ok"]
    if bad:
        rec.fail(f"{prog}:{tag}raises", "; ".join(bad)[:800])
        return
    res = [v for _, v in ranks]
    n = len(res)
    for key, w in want.items():
        how, name = key.split(":", 1)
        base = f"{prog}:{tag}{name}"
        if how == "maybe":
            if all(key not in x for x in res):
                continue
            how = "chunk"
        if any(key not in x for x in res):
            rec.fail(base + ":missing", "no result on some rank")
            continue
        got = [np.asarray(x[key]) for x in res]
        w = np.asarray(w)
        if how == "chunk":
            try:
                cat = np.concatenate(got, axis=0)
            except ValueError as e:
                rec.fail(base + ":pieces", f"pieces do not fit together: {[g.shape for g in got]}: {e}")
                continue
            rows = [g.shape[0] for g in got]
            if cat.shape != w.shape:
                rec.fail(base + ":shape", f"pieces {[g.shape for g in got]} instead of {w.shape}")
            elif not np.allclose(cat.astype(float), w.astype(float), rtol=rt, atol=at):
                rec.fail(base + ":value", f"rows per rank {rows}: " + ref.diffmsg(cat, w))
            rec.outcome((key, tuple(rows)))
        else:
            for r, g in enumerate(got):
                if g.shape != w.shape or not np.allclose(g.astype(float), w.astype(float), rtol=rt, atol=at):
                    rec.fail(base + ":value", f"rank {r} of {n}: " + ref.diffmsg(g, w))
                    break
            else:
                if any(not np.array_equal(g, got[0]) for g in got):
                    rec.fail(base + ":differs-between-ranks", f"{[g.tolist() for g in got]}")
            rec.outcome((key, np.round(w.astype(float), 9).tobytes()))
    rec.trace(len(want))


def explore_case(case, rec, want=None, seeds=None):
    setup()
    prog = case["prog"]
    if want is None:
        want = rec.call(f"{prog}:serial", run_serial, case)
    for mode in MODES:
        got = mpisim.explore(case["R"], rank_fn(case), mode, seeds)
        for i in range(got["states"]):
            rec.state((json.dumps(case, sort_keys=True), mode, i))
        rec.trans(got["transitions"])
        rec.note("rank executions", got["execs"])
        rec.note(f"schedule graphs explored ({mode})")
        for p in got["problems"]:
            if p == "CAP":
                rec.cap("state limit reached in " + json.dumps(case))
                continue
            kind = p.split(":")[0].split(" ")[0]
            Named(rec, case).fail(f"{prog}:{mode}:{kind}", p)
        if got["problems"] and not got["terminals"]:
            continue
        for t in got["terminals"]:
            judge(case, rec, want, t, "")
        if len(got["terminals"]) > 1:
            rec.note("programs with several outcomes")


def run(case, rec):
    if case["k"] == "conf":
        return run_conf(case, rec)
    if case["k"] == "group":
        for c in case["cases"]:
            try:
                explore_case(c, rec)
            except Exception as e:
                from core import LibError
                if not isinstance(e, LibError):
                    raise
        return
    explore_case(case, rec)


# ------------------------------------------------------------------ conformance with a real MPI
def run_conf(case, rec):
    """the same programs under the real MPI library: every rank's results must equal the simulator's (and the serial ones)"""
    import shutil, tempfile
    setup()
    exe = shutil.which("mpirun.openmpi") or shutil.which("mpirun")
    d = tempfile.mkdtemp(prefix="verif_mpi_")
    try:
        json.dump(case["cases"], open(d + "/cases.json", "w"))
        env = dict(os.environ, MUYGPYS_BACKEND="mpi", PYTHONPATH=os.environ["PYTHONPATH"] + ":" + os.path.dirname(os.path.abspath(__file__)), TMPDIR=d)

        def mpi(*a, t):
            p = subprocess.Popen([exe, "--oversubscribe", "--bind-to", "none", "-n", str(case["R"]), *a], env=env, cwd=d,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            try:
                out, _ = p.communicate(timeout=t)
                return p.returncode, out
            except subprocess.TimeoutExpired:
                import signal
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                return -1, "timeout"
        if exe is None or mpi(sys.executable, "-c", "from mpi4py import MPI; MPI.COMM_WORLD.barrier()", t=60)[0] != 0:
            rec.note("real MPI unavailable: conformance skipped")
            return
        rc, out = mpi(sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mpiprog.py"), d + "/cases.json", d, t=120)
        files = [f"{d}/{r}.pkl" for r in range(case["R"])]
        if rc != 0 or not all(map(os.path.exists, files)):
            rec.fail("real-mpi:" + ("hang" if rc == -1 else "crash"), f"exit {rc} on {case['R']} ranks: {out[-1500:]}")
            return
        res = [pickle.load(open(f, "rb")) for f in files]
        for i, c in enumerate(case["cases"]):
            c = dict(c, R=case["R"])
            want = rec.call(f"{c['prog']}:serial", run_serial, c)
            judge(c, rec, want, [r[i] for r in res], "real-mpi:")
            sim = mpisim.explore(case["R"], rank_fn(c), "eager")
            rec.state(("conf", case["R"], i))
            rec.trans(case["R"])
            for t in sim["terminals"]:
                for r in range(case["R"]):
                    a, b = t[r], res[r][i]
                    same = a[0] == b[0] and (a[0] != "ok" or (a[1].keys() == b[1].keys() and all(
                        np.allclose(np.asarray(a[1][k], float), np.asarray(b[1][k], float), rtol=1e-9, atol=1e-12)
                        if np.shape(a[1][k]) == np.shape(b[1][k]) else False for k in a[1])))
                    if not same:
                        raise RuntimeError(f"simulator and real MPI disagree on rank {r} of {c}: {a} / {b}")
            rec.trace()
            rec.note("programs replayed on real MPI")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ the space
def programs(tier, R):
    thorough = tier == "thorough"
    bs = range(1, 10 if not thorough else 14)
    out = []
    for b in bs:
        for what in ("pair", "cross", "feat", "hetero"):
            for where in ("root", "all"):
                for spec in (("iso", "ani") if what in ("pair", "cross") else ("iso",)):
                    out.append(dict(prog="tensors", what=what, where=where, spec=spec, b=b))
        out.append(dict(prog="tensors", what="pair", where="root", spec="dif", b=b))
        out.append(dict(prog="tensors", what="cross", where="root", spec="rbf", b=b))
        out.append(dict(prog="tensors", what="serial", spec="iso", b=b))
        out.append(dict(prog="tensors", what="serial", spec="ani", b=b))
        out.append(dict(prog="tensors", what="rechunk", spec="iso", b=3, n=b + 3))
        for spec in ("iso", "rbf", "ani", "dif", "gen"):
            for sc in (None, {"t": "analytic"}, {"t": "analytic", "iteration_count": 3}):
                c = dict(prog="model", spec=spec, b=b, where="root" if b % 2 else "all", k=3 + (b % 2))
                if sc:
                    c["scale"] = sc
                if sc or spec in ("iso", "ani"):
                    out.append(c)
        out.append(dict(prog="model", spec="iso", b=b, r=2))
        out.append(dict(prog="model", spec="iso", b=b, f=1, where="root"))
        for r in (1, 2, 3):
            out.append(dict(prog="model", spec="iso", b=b, r=r, multi=True, scale={"t": "analytic"}, where="root" if b % 2 else "all"))
        out.append(dict(prog="hier", spec="iso", knots=2 + b % 3, b=b))
        out.append(dict(prog="tensors", what="roundtrip", spec="iso", b=b, n=b + 3))
        if b <= 5:
            out.append(dict(prog="unsup", what="hetero", spec="iso", b=b))
            out.append(dict(prog="unsup", what="fast", spec="iso", b=b))
            for two in (False, True):
                out.append(dict(prog="shear", two=two, b=b, k=2 + b % 2, where="root" if b % 2 else "all"))
    for b in BIG:
        n = b + 6
        for where in ("root", "all"):
            out.append(dict(prog="tensors", what="pair", where=where, spec="iso", b=b, n=n))
            out.append(dict(prog="tensors", what="cross", where=where, spec="ani", b=b, n=n))
        out.append(dict(prog="tensors", what="hetero", where="root", spec="iso", b=b, n=n))
        out.append(dict(prog="tensors", what="roundtrip", spec="iso", b=b, n=n))
        out.append(dict(prog="model", spec="iso", b=b, n=n, k=4, scale={"t": "analytic"}))
        out.append(dict(prog="model", spec="ani", b=b, n=n, r=2, where="root"))
        for ls in ("mse", "lool", "lool_u", "ph", "looph"):
            out.append(dict(prog="obj", loss=ls, b=b, n=n, scale={"t": "analytic"}, spec="iso", free=["ls", "noise"], points=[0.0, 0.7]))
    for b in (1, 2, 3, 4, 5, 6) if not thorough else range(1, 9):
        for parts in comps(b, R):
            if R == 4 and b > (3 if not thorough else 6):
                continue
            for ls in ("mse", "ce", "lool", "lool_u", "ph", "looph"):
                rs = (2, 3) if ls == "ce" else (1, 2) if ls in ("mse", "ph") else (1,)
                for r in rs:
                    out.append(dict(prog="loss", loss=ls, b=b, r=r, parts=parts))
            for sc in ({"t": "analytic"}, {"t": "analytic", "iteration_count": 2}, {"t": "fixed", "val": 2.0}, {"t": "down", "down_count": 2, "iteration_count": 3}):
                if b <= 4 or sc["t"] != "fixed":
                    out.append(dict(prog="scale", spec="iso", b=b, parts=parts, scale=sc, k=4))
    for ls in ("mse", "ce", "lool", "lool_u", "ph", "looph"):
        for b in (1, 2, 3, 4, 5, 7, 8) if R < 4 or thorough else (1, 3, 5, 8):
            for sc in ({"t": "fixed"}, {"t": "analytic"}, {"t": "down", "down_count": 2, "iteration_count": 2}):
                if ls == "ce" and sc["t"] != "fixed" or (sc["t"] == "down" and (ls != "lool" or b > 3)):
                    continue
                for spec, free in (("iso", ["ls"]), ("gen", ["ls", "nu", "noise"]), ("ani", ["ls", "noise"])):
                    out.append(dict(prog="obj", loss=ls, b=b, scale=sc, spec=spec, free=free, points=[0.0, 0.7, 2.0, 0.0], where="root" if b % 2 else "all"))
    for c in out:
        c["R"] = R
        c["k_"] = c["prog"]
    return out


def cases(tier, env):
    if env == "mpireal":
        for R in (1, 2, 3, 4):
            ps = [c for c in programs("quick", R) if "parts" not in c or c["b"] <= 3]
            step = 7 if tier == "quick" else 2
            yield dict(k="conf", R=R, cases=ps[::step])
        return
    for R in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        ps = programs(tier if R <= 4 else "quick", R)
        n = 24
        for i in range(0, len(ps), n):
            yield dict(k="group", R=R, cases=ps[i:i + n])
