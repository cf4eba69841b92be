"""C15: every rank holds the same model after training, whatever the schedule and the ranks' own random sources."""
import itertools, json
import c14
from c14 import run as _run14, Named, rank_fn, run_serial, judge, MODES  # noqa: F401

PROP = "C15"
SEEDS = [[1000 + 17 * r for r in range(8)], [1000 + 17 * (7 - r) for r in range(8)], [1000] * 8]


def run(case, rec):
    if case["k"] == "conf":
        return c14.run_conf(case, rec)
    from core import LibError
    c14.setup()
    import numpy as np
    for c in case["cases"]:
        try:
            for seeds in SEEDS[:1] if c["R"] == 1 else SEEDS:
                np.random.seed(seeds[0])

                def serial(c=c):
                    np.random.seed(seeds[0])
                    return c14.serial.run(c, 0, 1)
                want = None
                if c["prog"] == "train" and UNSCRIPTED & set(c["steps"]):
                    agree_only(c, rec, seeds)
                    continue
                want = rec.call(f"{c['prog']}:serial", serial)
                c14.explore_case(c, rec, want=want, seeds=seeds[:c["R"]])
        except LibError:
            pass


def agree_only(c, rec, seeds):
    """the optimizer is not scripted: only agreement between the ranks of one execution is decided"""
    import numpy as np
    got = c14.mpisim.explore(c["R"], rank_fn(c), "sync", seeds[:c["R"]])
    rec.state(json.dumps(c, sort_keys=True))
    rec.trans(got["transitions"])
    for p in got["problems"]:
        Named(rec, c).fail("train:unscripted:" + p.split(":")[0].split(" ")[0], p)
    for t in got["terminals"]:
        bad = [v for s, v in t if s != "ok"]
        if bad:
            Named(rec, c).fail("train:unscripted:raises", bad[0])
            continue
        res = [v for _, v in t]
        for k in res[0]:
            if k.startswith("same:") and any(not np.array_equal(r[k], res[0][k]) for r in res):
                Named(rec, c).fail("train:unscripted:differs-between-ranks", f"{k}: {[r[k] for r in res]}")
                break
        rec.trace()


# unseeded optimizers have their own entropy and L-BFGS-B amplifies rounding: only the ranks' agreement is decided for them
UNSCRIPTED = {"realbayesnone", "realbayes", "bayes", "lbfgs"}

STEPS = ["fakelbfgs", "lbfgs", "bayes", "bayesseed", "scale"]


def programs(tier, R):
    out = []
    thorough = tier == "thorough"
    bnds = [[0.1, 2.0], [1e-5, 1e-1], [0.3, 0.31]]
    for how in ("sample", "log_sample"):
        for b in bnds:
            out.append(dict(prog="sample", draws=[[how, b]], times=3))
    for ks in ([[1, 3]], [[2, 4], [1, 2]], [[3, 5]]):
        out.append(dict(prog="sample", draws=[["sample", bnds[0]]], times=2, knots=ks))
    for hows in itertools.product(("sample", "log_sample"), repeat=3):
        out.append(dict(prog="sample", draws=[[h, b] for h, b in zip(hows, bnds)], times=2))
    bs = (1, 3, 4, 5) if not thorough else (1, 2, 3, 4, 5, 7, 9)
    scales = ({"t": "fixed", "val": 1.5}, {"t": "analytic"}, {"t": "analytic", "iteration_count": 3}, {"t": "down", "down_count": 2, "iteration_count": 2})
    seqs = [(s,) for s in STEPS] + [p for p in itertools.product(STEPS, repeat=2) if p[0] != p[1] or thorough]
    if thorough:
        seqs += [(a, b, c) for a, b, c in itertools.product(STEPS, repeat=3) if len({a, b, c}) == 3]
    j = 0
    for steps in seqs:
        for prompt in (None, "sample", "log_sample"):
            for spec, free in (("iso", ["ls"]), ("gen", ["ls", "nu", "noise"]), ("ani", ["ls", "noise"])):
                for sc in scales:
                    losses = ("lool", "mse", "ph", "looph", "lool_u") if len(steps) == 1 else ("lool",)
                    for ls in losses:
                        j += 1
                        if not thorough and len(steps) == 2 and j % 5:
                            continue
                        if not thorough and len(steps) == 1 and ls != "lool" and j % 3:
                            continue
                        c = dict(prog="train", spec=spec, free=free, scale=sc, loss=ls, steps=list(steps), b=bs[j % len(bs)],
                                 where="root" if j % 2 else "all", k=4)
                        if prompt:
                            c["prompt"] = prompt
                        if j % 11 == 0:
                            c["rounds"] = 2
                        out.append(c)
    for step in ("realbayes", "realbayesnone"):
        for spec, free in (("iso", ["ls"]), ("ani", ["ls", "noise"])):
            out.append(dict(prog="train", spec=spec, free=free, scale={"t": "analytic"}, loss="lool", steps=[step], b=5, where="root", k=4, prompt="sample"))
    for c in out:
        c["R"] = R
    return out


def cases(tier, env):
    if env == "mpireal":
        for R in (2, 3, 4):
            ps = [c for c in programs("quick", R) if not UNSCRIPTED & set(c.get("steps", [])) and c.get("prompt") is None
                  and c["prog"] != "sample"]
            yield dict(k="conf", R=R, cases=ps[::29 if tier == "quick" else 5])
        return
    for R in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        ps = programs(tier, R)
        n = 12
        for i in range(0, len(ps), n):
            yield dict(k="group", R=R, cases=ps[i:i + n])
