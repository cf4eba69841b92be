"""Explorer core shared by every check.

A check module (mc/cNN.py) defines
    PROP      property id
    ENVS      list of (name, {env}, python) in which the exploration is run (default: numpy backend)
    cases(tier, env) -> list of JSON-able dicts, simplest first; each names one finite piece of the space
    run(case, rec)   -> explores that piece exhaustively on the real code, reporting through rec

rec.state(key)        a distinct point of the explored space (configuration, model state, history state)
rec.trans(n)          executions of real operations (transitions between states)
rec.trace()           a reference-model trace/answer that was compared with the implementation
rec.fail(sig, detail) the property is broken; sig identifies the failing input/call site/history class

Nothing is sampled: the driver enumerates `cases` completely; a cap, if one is hit, is reported.
"""
import collections, hashlib, importlib, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
PYMPI = "/opt/venv-mpi/bin/python"


class Stop(Exception):
    pass


class LibError(Exception):
    """An operation of the code under test raised on a legal input."""


def h64(key):
    if not isinstance(key, (bytes, str)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode()
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "big")


class Rec:
    def __init__(self, case):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []      # (sig, detail)
        self.notes = {}
        self.caps = []
        self._sigs = collections.Counter()

    def state(self, key):
        h = h64((self.case["mem"], key) if isinstance(self.case, dict) and "mem" in self.case else key)
        new = h not in self.states
        self.states.add(h)
        return new

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(h64(key))

    def note(self, k, v=1):
        self.notes[k] = self.notes.get(k, 0) + v

    def cap(self, text):
        if text not in self.caps:
            self.caps.append(text)

    def fail(self, sig, detail=""):
        self._sigs[sig] += 1
        if self._sigs[sig] <= 3 and len(self.fails) < 60:
            self.fails.append((sig, str(detail)[:2000]))

    def call(self, sig, fn, *a, **k):
        """Run an operation of the code under test on a legal input; an exception is a violation."""
        self.transitions += 1
        try:
            return fn(*a, **k)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "MuyGPyS" in f.filename), "?")
            self.fail(f"{sig}:raises:{type(e).__name__}", f"{type(e).__name__}: {e} at {where}")
            raise LibError(sig) from e


# ------------------------------------------------------------------ worker side
def _load(prop):
    sys.path.insert(0, os.path.join(ROOT, "mc"))
    return importlib.import_module(prop.lower())


def _run_case(mod, case):
    rec = Rec(case)
    import ref
    ref.LAYOUT = case.get("mem", "C")
    try:
        mod.run(case, rec)
    except LibError:
        pass
    except Stop:
        pass
    except AssertionError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1].filename if tb else ""
        lib = [f for f in tb if "MuyGPyS" in f.filename]
        # without a library frame: what the library returned cannot be used as documented (wrong type, shape or length), unless
        # the harness itself reached for something internal that is not there
        own = isinstance(e, (ImportError, NameError, MemoryError, OSError)) or (isinstance(e, AttributeError) and re.search(r"attribute '_", str(e)))
        if (lib and getattr(mod, "LIB_EXC_IS_VIOLATION", True)) or not (lib or own):
            rec.fail(f"{case.get('k','case')}:{'raises' if lib else 'unusable-result'}:{type(e).__name__}",
                     f"{type(e).__name__}: {e}\n" + "".join(traceback.format_list(tb[-4:])))
        else:
            raise
    return rec


_MOD = None
_CASES = None


def _pool_fn(i):
    t = time.time()
    try:
        rec = _run_case(_MOD, _CASES[i])
    except Exception:
        return i, None, traceback.format_exc(), time.time() - t
    return i, rec, None, time.time() - t


def worker_main(prop, tier, env, out, only=None):
    """Runs inside one environment (backend): explores all its cases, writes a JSON summary."""
    import warnings
    warnings.simplefilter("ignore")
    global _MOD, _CASES
    mod = _load(prop)
    cases = list(mod.cases(tier, env)) if only is None else [only]
    _MOD, _CASES = mod, cases
    t0 = time.time()
    states, outcomes = set(), set()
    tot = collections.Counter()
    notes = collections.Counter()
    fails, errs, caps, samples, slow = [], [], [], [], []
    budget = float(os.environ.get("VERIF_BUDGET", "1e9"))
    jobs = 1 if (only is not None or len(cases) == 1) else min(8, os.cpu_count() or 1, getattr(mod, "JOBS", 8), len(cases))
    if hasattr(mod, "prepare"):
        mod.prepare(tier, env)
    if jobs == 1:
        it = map(_pool_fn, range(len(cases)))
        pool = None
    else:
        pool = mp.get_context("fork").Pool(jobs, maxtasksperchild=getattr(mod, "MAXTASKS", None))
        it = pool.imap_unordered(_pool_fn, range(len(cases)), chunksize=getattr(mod, "CHUNK", 1))
    done = 0
    stopped = None
    known = load_known(prop)
    for i, rec, err, dt in it:
        done += 1
        if err is not None:
            errs.append((cases[i], err))
            if len(errs) > 5:
                break
            continue
        states |= rec.states
        outcomes |= rec.outcomes
        tot["transitions"] += rec.transitions
        tot["traces"] += rec.traces
        notes.update(rec.notes)
        for c in rec.caps:
            if c not in caps:
                caps.append(c)
        for s, d in rec.fails:
            fails.append(dict(sig=s, detail=d, case=cases[i], idx=i, env=env))
        slow.append((dt, i))
        if sum(f["sig"] not in known for f in fails[-300:]) > 200 or (time.time() - t0 > budget):
            stopped = f"stopped after {done} of {len(cases)} cases"
            break
    if pool is not None:
        pool.terminate()
        pool.join()
    step = max(1, len(cases) // 5)
    samples = [cases[i] for i in range(0, len(cases), step)][:6]
    slow.sort(reverse=True)
    fails.sort(key=lambda f: f["idx"])
    res = dict(env=env, cases=len(cases), done=done, states=len(states), outcomes=len(outcomes),
               transitions=tot["transitions"], traces=tot["traces"], notes=dict(notes), caps=caps,
               fails=fails, errs=errs[:5], samples=samples, stopped=stopped,
               slow=[(round(d, 2), cases[i]) for d, i in slow[:5]], wall=time.time() - t0)
    with open(out, "w") as f:
        json.dump(res, f, default=str)


# ------------------------------------------------------------------ master side
BASE_ENV = dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0",
                PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", LANG="C.UTF-8",
                PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", PYTHONWARNINGS="ignore",
                OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
                OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm="isolated",
                OMPI_MCA_rmaps_base_oversubscribe="1")
DEFAULT_ENVS = [("numpy", {}, PY)]


def child_env(extra):
    e = dict(BASE_ENV)
    e["HOME"] = os.environ.get("HOME", "/root")
    e["TMPDIR"] = os.environ.get("TMPDIR", "/tmp")
    e["PYTHONPATH"] = REPO + "/src"
    for k in ("VERIF_SEED", "VERIF_TIER", "VERIF_REPO", "VERIF_BUDGET"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(extra)
    return e


def load_known(prop):
    known = {}
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    known[d["sig"]] = d
    return known


def main(prop, tier, replay=None):
    import tempfile
    t0 = time.time()
    meta = json.load(open(os.path.join(ROOT, "mc", "meta.json")))[prop]
    envs = meta.get("envs", ["numpy"])
    if os.environ.get("VERIF_ONLYENV"):      # development aid
        envs = [e for e in envs if e in os.environ["VERIF_ONLYENV"].split(",")]
    table = {"numpy": ({}, PY), "numpy32": ({"MUYGPYS_FTYPE": "32"}, PY),
             "torch": ({"MUYGPYS_BACKEND": "torch"}, PY),
             "torch32": ({"MUYGPYS_BACKEND": "torch", "MUYGPYS_FTYPE": "32"}, PY),
             "bare": ({"VERIF_BARE": "1"}, PY),
             "mpireal": ({}, PYMPI)}
    results = []
    tmp = tempfile.mkdtemp(prefix="verif_")
    only = None
    if replay:
        only = json.load(open(replay))
        envs = [only["env"]]
    for name in envs:
        extra, py = table[name]
        out = os.path.join(tmp, name + ".json")
        cmd = [py, os.path.join(ROOT, "mc", "core.py"), "--worker", prop, tier, name, out]
        if only:
            cmd.append(json.dumps(only["case"]))
        p = subprocess.run(cmd, env=child_env(extra), cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            # the library could not even be imported / the worker died: decide whether it is the library's fault
            tail = p.stdout[-3000:]
            print(tail)
            if "MuyGPyS" in tail and ("ImportError" in tail or "Error" in tail) and '/mc/' not in tail.split("MuyGPyS")[-1]:
                results.append(dict(env=name, cases=1, done=1, states=1, outcomes=1, transitions=1, traces=0, notes={}, caps=[],
                                    fails=[dict(sig="import:raises", detail=tail[-1500:], case={"k": "import"}, idx=0, env=name)],
                                    errs=[], samples=[{"k": "import"}], stopped=None, slow=[], wall=0))
                continue
            print(f"ERROR check {prop}: worker for {name} exited {p.returncode}")
            return 2
        results.append(json.load(open(out)))
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f)) if os.path.isfile(os.path.join(tmp, f)) else None
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    known = load_known(prop)
    fails = [f for r in results for f in r["fails"]]
    errs = [e for r in results for e in r["errs"]]
    newf = [f for f in fails if f["sig"] not in known]
    seen_known = sorted({f["sig"] for f in fails if f["sig"] in known})
    for s in seen_known:
        print(f"KNOWN-FINDING: property={prop} {s}: {known[s].get('what', '')}")
    cov = dict(
        states=sum(r["states"] for r in results), transitions=sum(r["transitions"] for r in results),
        traces_validated_against_impl=sum(r["traces"] for r in results),
        distinct_outcomes=sum(r["outcomes"] for r in results),
        samples=[dict(env=r["env"], case=s) for r in results for s in r["samples"]][:12],
        environments={r["env"]: dict(cases=r["cases"], explored=r["done"], states=r["states"], transitions=r["transitions"],
                                     wall_s=round(r["wall"], 1), counts=r["notes"]) for r in results},
        bounds=meta.get("bounds", ""),
        caps_hit=[c for r in results for c in r["caps"]] + [r["stopped"] for r in results if r["stopped"]],
        exhaustive=not any(r["stopped"] or r["caps"] for r in results),
        known_findings_seen=seen_known)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=meta.get("level", "model_checking"),
              coverage=cov, assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=len({f["sig"] for f in newf}))
    if not replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: cases={sum(r['done'] for r in results)} states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} wall={ev['wall_s']}s")
    if os.environ.get("VERIF_VERBOSE"):
        for r in results:
            print(r["env"], "slow:", r["slow"], "notes:", r["notes"])
    if newf:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        if not replay:
            with open(path, "w") as f:
                json.dump(newf[0], f, indent=1, default=str)
        else:
            path = replay
        done = set()
        for f in newf:
            if f["sig"] in done:
                continue
            done.add(f["sig"])
            if len(done) <= 8:
                print(f"  [{f['env']}] {f['sig']}: {f['detail'][:600]}  case={json.dumps(f['case'], default=str)[:300]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        print(errs[0][0]); print(errs[0][1])
        print(f"ERROR check {prop}: harness error in {len(errs)} cases")
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        sys.modules["core"] = sys.modules["__main__"]
        only = json.loads(sys.argv[6]) if len(sys.argv) > 6 else None
        worker_main(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5], only)
    elif sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        prop = sys.argv[3] if len(sys.argv) > 3 else os.path.basename(sys.argv[2]).split(".")[0]
        sys.exit(main(prop, "quick", replay=sys.argv[2]))
    else:
        sys.exit(main(sys.argv[1], sys.argv[2]))
