"""Virtual MPI: the real MuyGPyS code runs on N virtual ranks (threads, each with its own import of MuyGPyS and its own
random state) over a simulated communicator; `explore` enumerates every schedule of the ranks' communication.

Each rank is a deterministic function of the results its communication calls return, so a rank's behaviour is a tree
over histories (sequences of call results). The explorer builds the graph of global states
(history of each rank, messages in flight, open collectives) by running the real code to its next communication call
for every history that some schedule produces, and visits every reachable state. Local computation between two
communication calls touches nothing shared, so interleaving it is irrelevant.

Two message disciplines are explored: `eager` (sends complete at once, messages of a pair arrive in order; reductions and
broadcasts release a rank as soon as its own data dependencies allow) and `sync` (a send completes only when received,
a collective only when everybody entered). A program free of deadlock under `sync` does not rely on buffering.
"""
import os, pickle, sys, threading, types, importlib
import numpy as np

PREFIX = ("MuyGPyS", "ref", "mpiprog")
ANY = -1


class Abort(BaseException):
    pass


class MPIError(Exception):
    """the simulated call is illegal in MPI"""


_tls = threading.local()


class Op:
    """reduction operator"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return f"op:{self.name}"


def _call(kind, **kw):
    return _tls.proc.op(dict(kind=kind, **kw))


class Request:
    def __init__(self, wait=None, val=None):
        self._w, self._v = wait, val

    def wait(self, status=None):
        if self._w is not None:
            w, self._w = self._w, None
            self._v = w()
        return self._v

    Wait = wait

    def test(self):
        return True, self.wait()

    @staticmethod
    def waitall(reqs):
        return [r.wait() for r in reqs]

    Waitall = waitall


class Comm:
    """the communicator of the calling rank"""

    def __init__(self, base=None):
        pass

    def Get_rank(self):
        return _tls.proc.rank

    def Get_size(self):
        return _tls.proc.size

    rank = property(Get_rank)
    size = property(Get_size)

    # point to point
    def send(self, obj, dest, tag=0):
        _call("send", dst=int(dest), tag=tag, obj=pickle.dumps(obj, -1))

    ssend = send
    bsend = send

    def isend(self, obj, dest, tag=0):
        _call("isend", dst=int(dest), tag=tag, obj=pickle.dumps(obj, -1))
        return Request()

    issend = isend

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        return pickle.loads(_call("recv", src=source, tag=tag))

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(lambda: self.recv(buf, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag)

    # collectives
    def _coll(self, name, obj, root=None, op=None):
        r = _call("coll", name=name, root=root, op=op, obj=pickle.dumps(obj, -1))
        return None if r is None else pickle.loads(r)

    def bcast(self, obj=None, root=0):
        return self._coll("bcast", obj if self.rank == root else None, root)

    def scatter(self, sendobj=None, root=0):
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise MPIError(f"scatter of {len(sendobj)} items over {self.size} ranks")
        return self._coll("scatter", sendobj if self.rank == root else None, root)

    def gather(self, sendobj, root=0):
        return self._coll("gather", sendobj, root)

    def allgather(self, sendobj):
        return self._coll("allgather", sendobj)

    def alltoall(self, sendobj):
        return self._coll("alltoall", sendobj)

    def reduce(self, sendobj, op=None, root=0):
        return self._coll("reduce", sendobj, root, (op or SUM).name)

    def allreduce(self, sendobj, op=None):
        return self._coll("allreduce", sendobj, None, (op or SUM).name)

    def scan(self, sendobj, op=None):
        return self._coll("scan", sendobj, None, (op or SUM).name)

    def barrier(self):
        self._coll("barrier", None)

    # buffer variants on arrays
    @staticmethod
    def _buf(b):
        return b[0] if isinstance(b, (list, tuple)) else b

    def Barrier(self):
        self.barrier()

    def Send(self, buf, dest, tag=0):
        self.send(np.array(self._buf(buf)), dest, tag)

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        b = self._buf(buf)
        b[...] = np.asarray(self.recv(None, source, tag)).reshape(b.shape)

    def Bcast(self, buf, root=0):
        b = self._buf(buf)
        b[...] = self.bcast(np.array(b), root)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        b, s = self._buf(recvbuf), sendbuf
        v = b if isinstance(s, str) and s == IN_PLACE else self._buf(s)
        b[...] = self.allreduce(np.array(v), op)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        v = self.reduce(np.array(self._buf(sendbuf)), op, root)
        if self.rank == root:
            self._buf(recvbuf)[...] = v

    def Allgather(self, sendbuf, recvbuf):
        b = self._buf(recvbuf)
        b[...] = np.concatenate([np.ravel(x) for x in self.allgather(np.array(self._buf(sendbuf)))]).reshape(b.shape)

    def Scatter(self, sendbuf, recvbuf, root=0):
        parts = np.array_split(np.ravel(self._buf(sendbuf)), self.size) if self.rank == root else None
        b = self._buf(recvbuf)
        b[...] = self.scatter(parts, root).reshape(b.shape)

    def Dup(self, *a):
        return self

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, code=1):
        raise MPIError("Abort called")

    def py2f(self):
        return 0


IN_PLACE = "MPI_IN_PLACE"
SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", lambda a, b: b if b > a else a)
MIN = Op("MIN", lambda a, b: b if b < a else a)
LAND = Op("LAND", lambda a, b: bool(a) and bool(b))
LOR = Op("LOR", lambda a, b: bool(a) or bool(b))
OPS = {o.name: o for o in (SUM, PROD, MAX, MIN, LAND, LOR)}


def install():
    """put the virtual mpi4py in sys.modules"""
    m = types.ModuleType("mpi4py")
    M = types.ModuleType("mpi4py.MPI")
    u = types.ModuleType("mpi4py.util")
    p = types.ModuleType("mpi4py.util.pkl5")
    for o in OPS.values():
        setattr(M, o.name, o)
    M.ANY_SOURCE = M.ANY_TAG = ANY
    M.IN_PLACE = IN_PLACE
    M.Comm = M.Intracomm = Comm
    M.COMM_WORLD = Comm()
    M.Request = Request
    M.Get_processor_name = lambda: "virtual"
    M.Is_initialized = lambda: True
    M.Exception = MPIError
    M.Wtime = lambda: 0.0
    p.Intracomm = Comm
    m.MPI, m.util, u.pkl5 = M, u, p
    m.__path__ = []
    u.__path__ = []
    m.__version__ = "3.1.3"
    sys.modules.update({"mpi4py": m, "mpi4py.MPI": M, "mpi4py.util": u, "mpi4py.util.pkl5": p})


# ------------------------------------------------------------------ per-rank copies of the code
PREFIX_DOT = tuple(p + "." for p in PREFIX)


def _mine(name):
    return name.startswith(PREFIX) and (name in PREFIX or name.startswith(PREFIX_DOT))


_cur = None          # key of the module set now in sys.modules
_sets = {}
_counts = {}


def switch(key):
    global _cur
    if key == _cur:
        return
    n = len(sys.modules)
    old = _sets.get(_cur)
    if old is None or _counts.get(_cur) != n:      # modules were imported since this set was put in place
        old = _sets[_cur] = {k: v for k, v in list(sys.modules.items()) if _mine(k)}
    for k in old:
        sys.modules.pop(k, None)
    sys.modules.update(_sets.get(key, {}))
    _cur = key
    _counts[key] = len(sys.modules)


class Proc:
    """one execution of the program on one virtual rank, following (and then extending) a history of results"""

    def __init__(self, rank, size, fn, seed):
        self.rank, self.size, self.fn = rank, size, fn
        self.key = (rank, size)
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.pending = self.answer = None
        self.state, self.result = "new", None
        self.dead = False
        self.rng = np.random.RandomState(seed).get_state()
        self.t = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        _tls.proc = self
        self.go.acquire()
        if not self.dead:
            try:
                self.result = ("ok", self.fn(self.rank, self.size))
            except Abort:
                self.result = ("abort", None)
            except BaseException as e:  # noqa
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "MuyGPyS" in f.filename), "?")
                self.result = ("raise", f"{type(e).__name__}: {e} at {where}")
        self.state = "done"
        self.back.release()

    def op(self, desc):
        self.pending, self.state = desc, "op"
        self.back.release()
        self.go.acquire()
        if self.dead:
            raise Abort()
        return self.answer

    def run(self):
        """let the rank run to its next communication call or its end"""
        switch(self.key)
        outer = np.random.get_state()
        np.random.set_state(self.rng)
        if self.state == "new":
            self.t.start()
        self.state = "run"
        self.go.release()
        self.back.acquire()
        self.rng = np.random.get_state()
        np.random.set_state(outer)
        switch(None)

    def step(self, answer):
        self.answer = answer
        self.pending = None
        self.run()

    def kill(self):
        if self.state == "op":
            self.dead = True
            self.run()
        elif self.state == "new":
            pass


def _dig(b):
    import hashlib
    return hashlib.blake2b(b if isinstance(b, bytes) else repr(b).encode(), digest_size=8).digest()


class World:
    """lazily computed behaviour of every rank as a tree over histories"""

    def __init__(self, size, fn, seeds=None):
        self.size, self.fn = size, fn
        self.seeds = seeds or [1000 + 17 * r for r in range(size)]
        self.answers = {}                       # digest -> result bytes
        self.next = [dict() for _ in range(size)]   # history -> ("op", desc) | ("done", result)
        self.live = [None] * size               # (history, Proc)
        self.ids, self.parent = {}, [None]
        self.execs = 0

    def ext(self, h, d):
        """history h followed by result d (histories are numbered; 0 is the empty one)"""
        i = self.ids.get((h, d))
        if i is None:
            i = self.ids[(h, d)] = len(self.parent)
            self.parent.append((h, d))
        return i

    def behave(self, r, hist):
        got = self.next[r].get(hist)
        if got is not None:
            return got
        live = self.live[r]
        stop = live[0] if live is not None else None
        todo, h = [], hist
        while h and h != stop:
            todo.append(h)
            h = self.parent[h][0]
        if live is None or h != stop:
            if live is not None:
                live[1].kill()
            p = Proc(r, self.size, self.fn, self.seeds[r])
            p.run()
            self.execs += 1
            self._note(r, 0, p)
        else:
            p = live[1]
        for h in reversed(todo):
            if p.state != "op":
                raise RuntimeError("rank is not a function of its communication results")
            p.step(self.answers[self.parent[h][1]])
            self._note(r, h, p)
        self.live[r] = (hist, p)
        return self.next[r][hist]

    def _note(self, r, h, p):
        self.next[r].setdefault(h, ("op", p.pending) if p.state == "op" else ("done", p.result))

    def ans(self, b):
        d = _dig(b if b is not None else b"\0none")
        self.answers[d] = b
        return d

    def close(self):
        for l in self.live:
            if l is not None:
                l[1].kill()


def _combine(name, root, opname, parts, size, rank):
    """result of a completed collective on one rank"""
    vals = None
    if name == "barrier":
        return pickle.dumps(None, -1)
    if name == "bcast":
        return parts[root]
    if name == "scatter":
        return pickle.dumps(pickle.loads(parts[root])[rank], -1)
    if name == "alltoall":
        return pickle.dumps([pickle.loads(parts[s])[rank] for s in range(size)], -1)
    vals = [pickle.loads(parts[s]) for s in range(size) if parts.get(s) is not None]
    if name == "gather":
        return pickle.dumps(vals if rank == root else None, -1)
    if name == "allgather":
        return pickle.dumps(vals, -1)
    if name == "scan":
        vals = vals[:rank + 1]
    acc = vals[0]
    for v in vals[1:]:
        acc = OPS[opname](acc, v)
    if name == "reduce":
        return pickle.dumps(acc if rank == root else None, -1)
    return pickle.dumps(acc, -1)


NEED_ALL = {"allgather", "alltoall", "allreduce", "barrier"}


def explore(size, fn, mode, seeds=None, max_states=2_000_000):
    """-> dict(states, transitions, execs, terminals=[per-rank results], problems=[text])"""
    w = World(size, fn, seeds)
    # state: (hists, channels, colls, collpos)
    #   channels: tuple of ((src,dst,tag), (payload digests...)); colls: tuple of (index, ((rank, obj digest)...), name, root, op)
    #   collpos: per rank number of collectives entered
    start = ((0,) * size, (), (), (0,) * size)
    seen = {start}
    todo = [start]
    trans = 0
    terminals, problems = [], []
    tkeys = set()
    while todo:
        st = todo.pop()
        hists, chans, colls, cpos = st
        ch = dict(chans)
        co = {c[0]: c for c in colls}
        beh = [w.behave(r, hists[r]) for r in range(size)]
        succ = []

        def adv(upd, ch2=None, co2=None, cp2=None):
            hs = list(hists)
            for r, d in upd.items():
                hs[r] = w.ext(hs[r], d)
            succ.append((tuple(hs), tuple(sorted((k, v) for k, v in (ch if ch2 is None else ch2).items() if v)),
                         tuple(sorted((co if co2 is None else co2).values())), tuple(cp2 or cpos)))
        # a collective that nobody can leave before everybody has entered is one step of all ranks: entering and leaving
        # change nothing another rank can see
        if all(b[0] == "op" and b[1]["kind"] == "coll" for b in beh) and len(set(cpos)) == 1 and cpos[0] not in co \
                and len({(b[1]["name"], b[1]["root"], b[1]["op"]) for b in beh}) == 1 \
                and (mode == "sync" or beh[0][1]["name"] in NEED_ALL):
            d0 = beh[0][1]
            parts = {s: beh[s][1]["obj"] for s in range(size)}
            adv({r: w.ans(_combine(d0["name"], d0["root"], d0["op"], parts, size, r)) for r in range(size)}, None, None,
                [c + 1 for c in cpos])
        for r in range(size):
            kind, d = beh[r]
            if kind == "done":
                continue
            k = d["kind"]
            if k == "coll" and (mode == "sync" or d["name"] in NEED_ALL):
                continue
            if k in ("send", "isend"):
                if not 0 <= d["dst"] < size:
                    problems.append(f"rank {r} sends to rank {d['dst']}")
                    continue
                if mode == "eager" or k == "isend":
                    key = (r, d["dst"], d["tag"])
                    adv({r: w.ans(None)}, {**ch, key: ch.get(key, ()) + (w.ans(d["obj"]),)})
                else:   # rendezvous: handled by the receiver
                    pass
            elif k == "recv":
                srcs = [d["src"]] if d["src"] != ANY else list(range(size))
                for s in srcs:
                    for key in [key for key in ch if key[0] == s and key[1] == r and d["tag"] in (ANY, key[2]) and ch[key]]:
                        adv({r: ch[key][0]}, {**ch, key: ch[key][1:]})
                    b = beh[s]
                    if mode == "sync" and s != r and b[0] == "op" and b[1]["kind"] == "send" and b[1]["dst"] == r \
                            and d["tag"] in (ANY, b[1]["tag"]) and not any(key[0] == s and key[1] == r for key in ch if ch[key]):
                        adv({r: w.ans(b[1]["obj"]), s: w.ans(None)})
            elif k == "coll":
                i = cpos[r]
                cur = co.get(i)
                entered = dict(cur[1]) if cur else {}
                if r not in entered:
                    if cur and (cur[2], cur[3], cur[4]) != (d["name"], d["root"], d["op"]):
                        problems.append(f"collective mismatch: rank {r} calls {d['name']}(root={d['root']}, op={d['op']}) where another called {cur[2]}(root={cur[3]}, op={cur[4]})")
                        continue
                    e2 = dict(entered)
                    e2[r] = w.ans(d["obj"])
                    # entering is a step of its own; leaving is another
                    adv({}, None, {**co, i: (i, tuple(sorted(e2.items())), d["name"], d["root"], d["op"], cur[5] if cur else ())}, None)
                else:
                    name, root = d["name"], d["root"]
                    full = len(entered) == size
                    ok = full
                    if mode == "eager" and not full and name not in NEED_ALL:
                        ok = (name in ("bcast", "scatter") and root in entered) or (name in ("gather", "reduce") and r != root) \
                            or (name == "scan" and all(s in entered for s in range(r + 1)))
                    if ok:
                        parts = {s: w.answers[x] for s, x in entered.items()}
                        res = pickle.dumps(None, -1) if name in ("gather", "reduce") and r != root else _combine(name, root, d["op"], parts, size, r)
                        left = cur[5] + (r,)
                        co2 = dict(co)
                        if len(left) == size:
                            del co2[i]
                        else:
                            co2[i] = cur[:5] + (tuple(sorted(left)),)
                        cp = list(cpos)
                        cp[r] += 1
                        adv({r: w.ans(res)}, None, co2, cp)
        trans += len(succ)
        if not succ:
            if all(b[0] == "done" for b in beh):
                if any(ch.values()):
                    problems.append(f"messages never received: {[k for k in ch if ch[k]]}")
                if co:
                    problems.append(f"collective {[c[2] for c in co.values()]} never completed")
                key = tuple(hists)
                if key not in tkeys:
                    tkeys.add(key)
                    terminals.append([b[1] for b in beh])
            else:
                desc = []
                for r, b in enumerate(beh):
                    if b[0] == "done":
                        desc.append(f"rank {r} " + ("finished" if b[1][0] == "ok" else f"ended with {b[1][1]}"))
                    else:
                        o = b[1]
                        desc.append(f"rank {r} waits in {o.get('name', o['kind'])}" + (f" from {o['src']}" if o["kind"] == "recv" else f" to {o['dst']}" if "dst" in o else ""))
                problems.append("deadlock: " + "; ".join(desc))
        for s in succ:
            if s not in seen:
                seen.add(s)
                todo.append(s)
        if len(seen) > max_states:
            problems.append("CAP")
            break
        if len(problems) > 5:
            break
    execs = w.execs
    w.close()
    return dict(states=len(seen), transitions=trans, execs=execs, terminals=terminals, problems=sorted(set(problems)))
