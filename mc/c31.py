"""C31: interleaved operations do not disturb each other. Every public operation is preempted before every line of library code it executes,
by the same operation on other models and data and by other operations on the same ones, running to the end (one preemption) or up to a line
of their own and finishing after it (two preemptions, real threads under a controlled scheduler). Each must answer as it does alone."""
import copy, sys, threading, warnings
import seams
import numpy as np
from ref import *
from ref import P
import c23, c30

DIMS = [(2, 2, 2), (3, 2, 1)]
SCRIPTED = ("optimize", "do_", "mini", "real.", "objective", "samplers", "down.", "sample.", "scale.", "multi.scale", "filtered")


def table(d):
    return c23.ops(d)               # their random draws are scripted: a shared random source does couple operations


def cases(tier, env):
    out = []
    for d in range(len(DIMS) if tier == "thorough" else 1):
        for n in sorted(table(DIMS[d])):
            out.append(dict(k="nested", d=d, op=n, cap=2000 if tier == "thorough" else 120))
            if not n.startswith(SCRIPTED):
                out.append(dict(k="threads", d=d, op=n, cap=400 if tier == "thorough" else 60, js=400 if tier == "thorough" else 10))
    return out


def other_world(d):
    """other models and other data"""
    w = c23.World(d)
    c23.full_nn(w)
    for k_ in sorted(w.a):
        if k_ not in c23.KEPT and k_ != "X":
            N(w.a[k_])[...] = c23.rewrite(k_, N(w.a[k_]), "all", w.n)
            w.base[k_] = (np.array(N(w.a[k_]), copy=True), None)
    for nm, m in w.m.items():
        if nm == "multi":
            continue
        for h in m.kernel._hyperparameters:
            if h != "smoothness":
                m.kernel.set_params(**{h: P(1.1)})
    w.par = {k_: c23.params_of(m) for k_, m in w.m.items()}
    return w


def nested(a, b, stop):
    """runs a; before its stop-th line, all of b; (result of a, result of b or None)"""
    n, box = [0], []

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == stop:
                sys.settrace(None)
                box.append(b())
        return local

    def start(frame, event, arg):
        if n[0] >= stop:
            return None
        return local if frame.f_code.co_filename.startswith(c30.SRC) else None
    old = sys.gettrace()
    sys.settrace(start)
    try:
        r = a()
    finally:
        sys.settrace(old)
    return r, (box[0] if box else None), bool(box)


class Turns:
    """two threads, one running at a time: the first runs i lines, the second j lines, the first to its end, the second to its end"""

    def __init__(self, a, b, i, j):
        self.fns, self.quota = [a, b], [i, j]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.res, self.err = [None, None], [None, None]

    def swap(self, me):
        if not self.done[1 - me]:
            self.go[1 - me].release()
            self.go[me].acquire()

    def body(self, me):
        n = [0]

        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                if n[0] == self.quota[me]:
                    self.swap(me)
            return local

        def start(frame, event, arg):
            return local if n[0] < self.quota[me] and frame.f_code.co_filename.startswith(c30.SRC) else None
        self.go[me].acquire()
        sys.settrace(start)
        try:
            self.res[me] = self.fns[me]()
        except BaseException as e:
            self.err[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.go[1 - me].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(me,)) for me in (0, 1)]
        for t in ts:
            t.start()
        self.go[0].release()
        for t in ts:
            t.join()
        return self.res, self.err


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        explore(case, rec)


def explore(case, rec):
    d = DIMS[case["d"]]
    T = table(d)
    nm = case["op"]
    w, v = c23.World(d), other_world(d)
    c23.full_nn(w)

    def on(u, name=nm):
        np.random.seed(3)
        return T[name](u)
    rec.call(nm, on, w); rec.call(nm, on, v)
    u = copy.copy(v)                        # the same models on other data
    u.m = w.m
    u.hm = getattr(w, "hm", None)
    for _ in range(2):
        rec.call(nm, on, w); rec.call(nm, on, v); rec.call(nm, on, u)
    ww, wv, wu = (c23.copies(rec.call(nm, on, x)) for x in (w, v, u))
    n = c30.lines(lambda: on(w))
    pts_ = c30.chosen(n, case["cap"], 20)

    def judge(what, a, b, na, nb):
        rec.trace()
        if not c23.same_values(na, c23.copies(a)):
            rec.fail(f"{nm}.interleaved", f"{nm} answers differently when {what} of {n}"); return False
        if not c23.same_values(nb, c23.copies(b)):
            rec.fail(f"{nm}.interleaved", f"the other operation answers differently when {what} of {n}"); return False
        return True
    if case["k"] == "nested":
        for i in pts_:
            rec.state((case["d"], nm, "nested", i)); rec.trans()
            for x, wx, which in ((v, wv, "models and data"), (u, wu, "data")):
                a, b, hit = nested(lambda: on(w), lambda: on(x), i)
                if hit and not judge(f"the same on other {which} runs before its line {i}", a, b, ww, wx):
                    return
        # every other operation on the same models, each before some line
        names = sorted(T)
        want = {o: c23.copies(rec.call(o, on, w, o)) for o in names}
        for j, o in enumerate(names):
            for i in sorted({1 + (j * 7 + q * max(1, n // 3)) % n for q in range(3)}):
                rec.state((case["d"], nm, o, i)); rec.trans()
                a, b, hit = nested(lambda: on(w), lambda: on(w, o), i)
                if hit and not judge(f"{o} on the same models runs before its line {i}", a, b, ww, want[o]):
                    return
        rec.outcome((nm, len(pts_) == n))
    else:
        js = sorted({1 + (n - 1) * q // max(1, case["js"] - 1) for q in range(case["js"])})
        for i in pts_:
            for j in sorted(set(js) | {i, max(1, i - 1), i + 1}) if case["js"] > 20 else sorted(set(js[i % 3::3]) | {i}):
                rec.state((case["d"], nm, "threads", i, j)); rec.trans()
                x, wx, which = ((v, wv, "models and data"), (u, wu, "data"))[(i + j) % 2]
                (a, b), err = Turns(lambda: on(w), lambda: on(x), i, j).run()
                for e in err:
                    if e is not None:
                        rec.fail(f"{nm}.interleaved", f"{nm} raises {type(e).__name__}: {e} when it stops before line {i} of {n} for the same on other {which}, up to line {j}"); return
                if not judge(f"it stops before line {i} for the same on other {which}, up to line {j}", a, b, ww, wx):
                    return
        rec.outcome((nm, "threads"))
    if w.changed() or v.changed():
        rec.fail(f"{nm}.interleaved", f"interleaving leaves {w.changed() + v.changed()} changed")
