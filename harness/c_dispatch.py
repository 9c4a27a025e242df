"""C12: the real master and worker loops as threads of which exactly one runs at a time.  The scheduler decides at
every communication; messages put on a queue are pickled only when a separate feeder step is chosen."""
import pickle, random, threading, os, io, contextlib
from common import run_impl


class Abort(BaseException):
    pass


class Sched(object):
    def __init__(self, choose, limit=3000):
        self.choose, self.limit = choose, limit
        self.actors, self.order, self.feeders = {}, [], {}
        self.main = threading.Semaphore(0)
        self.log, self.steps, self.aborting = [], 0, False
        self.tls = threading.local()
        self.hang = False

    def spawn(self, name, fn):
        a = {"name": name, "sem": threading.Semaphore(0), "ready": lambda: True, "done": False, "exc": None}

        def body():
            self.tls.name = name
            a["sem"].acquire()
            try:
                if not self.aborting:
                    fn()
            except Abort:
                pass
            except BaseException as e:
                a["exc"] = type(e).__name__ + ": " + str(e)[:200]
            a["done"] = True
            if not self.aborting:
                self.log.append({"op": "end", "w": name})
            self.main.release()
        a["thread"] = t = threading.Thread(target=body)
        t.daemon = True
        self.actors[name] = a
        self.order.append(name)
        t.start()

    def me(self):
        return self.tls.name

    def point(self, ready=None):
        """give up control until ready() holds and the scheduler picks us"""
        a = self.actors[self.me()]
        a["ready"] = ready or (lambda: True)
        self.main.release()
        a["sem"].acquire()
        if self.aborting:
            raise Abort()

    def run(self):
        while True:
            live = [n for n in self.order if not self.actors[n]["done"]]
            opts = [n for n in live if self.actors[n]["ready"]()] + [k for k in sorted(self.feeders, key=str) if self.feeders[k].pending()]
            if not opts or self.steps >= self.limit:
                self.hang = bool(live)
                break
            self.steps += 1
            k = self.choose(opts)
            if k in self.actors:
                self.actors[k]["sem"].release()
                self.main.acquire()
            else:
                self.feeders[k].step()
        self.aborting = True
        for n in self.order:
            a = self.actors[n]
            for _ in range(50):
                if a["done"]:
                    break
                a["sem"].release()
                a["thread"].join(.05)
        return self.log


class Feeder(object):
    def __init__(self, pipe, sender):
        self.pipe, self.sender, self.buf = pipe, sender, []

    def pending(self):
        return bool(self.buf)

    def step(self):
        self.pipe.append((self.sender, pickle.dumps(self.buf.pop(0))))


class FakeQueue(object):
    def __init__(self, sched, name, master):
        self.s, self.name, self.pipe, self.master = sched, name, [], master

    def put(self, obj, block=True, timeout=None):
        s = self.s
        key = "feed-%s-%s" % (self.name, s.me())
        if key not in s.feeders:
            s.feeders[key] = Feeder(self.pipe, s.me())
        s.feeders[key].buf.append(obj)
        s.point()

    def get(self, block=True, timeout=None):
        s = self.s
        if block and timeout is None:
            s.point(lambda: bool(self.pipe))
        else:
            s.point()
            if not self.pipe:
                import queue
                raise queue.Empty()
        sender, data = self.pipe.pop(0)
        if s.me() == self.master:
            s.log.append({"op": "heard", "w": sender})
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    put_nowait = put

    def empty(self):
        return not self.pipe

    def qsize(self):
        return len(self.pipe)

    def close(self):
        pass
    cancel_join_thread = join_thread = close


class FakeMP(object):
    """what of multiprocessing the driver may use"""
    def __init__(self, sched, make, master):
        self.s, self.make, self.n, self.nq, self.master = sched, make, 0, 0, master
        import multiprocessing
        self.current_process, self.cpu_count = multiprocessing.current_process, multiprocessing.cpu_count

    def Queue(self, *a):
        self.nq += 1
        return FakeQueue(self.s, "q%d" % self.nq, self.master)
    SimpleQueue = JoinableQueue = Queue

    def Manager(self):
        return self

    def get_context(self, *a):
        return self

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.n += 1
        return FakeProcess(self, target, args, kwargs or {}, self.n)


class FakeProcess(object):
    def __init__(self, mp, target, args, kwargs, k):
        from openmdao.core.problem import Problem
        self.mp, self.name = mp, k
        args = tuple(mp.make(k) if isinstance(x, Problem) else x for x in args)
        self.fn = lambda: target(*args, **kwargs)
        self.daemon, self.pid, self.exitcode = False, k, None

    def start(self):
        self.mp.s.spawn(self.name, self.fn)

    def join(self, timeout=None):
        s = self.mp.s
        s.point(lambda: s.actors[self.name]["done"])

    def is_alive(self):
        return not self.mp.s.actors[self.name]["done"]

    def terminate(self):
        raise RuntimeError("a worker was killed")
    kill = terminate


class World(object):
    """messages between the ranks of a faked MPI world"""
    def __init__(self, sched, size):
        self.s, self.size, self.chan, self.coll = sched, size, {}, {}


class Comm(object):
    def __init__(self, world, ranks, rank, ident):
        self.w, self.ranks, self.rank, self.size, self.id = world, ranks, rank, len(ranks), ident
        self.ncoll = 0

    def send(self, obj, dest, tag=0):
        if not 0 <= dest < self.size:
            raise ValueError("no rank %d" % dest)
        self.w.chan.setdefault((self.id, dest), []).append((self.rank, tag, pickle.dumps(obj)))
        self.w.s.point()
    isend = send

    def recv(self, source=-1, tag=-1, **kw):
        box = self.w.chan.setdefault((self.id, self.rank), [])
        ok = lambda m: source in (-1, m[0]) and tag in (-1, m[1])
        s = self.w.s
        s.point(lambda: any(ok(m) for m in box))
        # of several senders any may be first; messages of one sender stay in order
        first = {}
        for i, m in enumerate(box):
            if ok(m):
                first.setdefault(m[0], i)
        k = s.choose(sorted(first)) if len(first) > 1 else list(first)[0]
        m = box.pop(first[k])
        if s.me() == 0:
            s.log.append({"op": "heard", "w": self.ranks[m[0]]})
        return pickle.loads(m[2])

    def collective(self, val):
        """blocks until every rank of this communicator has contributed to its n-th collective"""
        self.ncoll += 1
        d = self.w.coll.setdefault((self.id, self.ncoll), {})
        d[self.rank] = pickle.dumps(val)
        self.w.s.point(lambda: len(d) == self.size)
        return [pickle.loads(d[r]) for r in range(self.size)]

    def bcast(self, obj, root=0):
        return self.collective(obj)[root]

    def gather(self, obj, root=0):
        r = self.collective(obj)
        return r if self.rank == root else None

    def allgather(self, obj):
        return self.collective(obj)

    def scatter(self, obj, root=0):
        return self.collective(obj)[root][self.rank]

    def barrier(self):
        self.collective(None)
    Barrier = barrier

    def Allreduce(self, a, b, op=None):
        b[...] = sum(self.collective(a))

    def allreduce(self, a, op=None):
        return sum(self.collective(a))

    def Split(self, color=0, key=0):
        # every rank knows the colours only after the exchange
        cs = self.collective(color)
        if color is FakeMPI.UNDEFINED or color == FakeMPI.UNDEFINED:
            return None
        mine = [r for r in range(self.size) if cs[r] == color]
        return Comm(self.w, [self.ranks[r] for r in mine], mine.index(self.rank), (self.id, self.ncoll, color))


class FakeMPI(object):
    UNDEFINED, COMM_NULL, SUM, ANY_SOURCE, ANY_TAG = -32766, None, "sum", -1, -1


def chooser(rng, mode):
    """mode 'rand': uniform; 'prio': random priorities with a few changes; list: replay of indices, then first"""
    if mode == "rand":
        return lambda opts: rng.choice(opts)
    if mode == "prio":
        pr, n = {}, [0]

        def ch(opts):
            n[0] += 1
            for o in opts:
                if o not in pr:
                    pr[o] = rng.random()
            if rng.random() < .06:
                pr[rng.choice(opts)] = rng.random() - (1 if rng.random() < .5 else 0)
            return max(opts, key=lambda o: pr[o])
        return ch
    trail = mode

    def replay(opts):
        k = len(trail["taken"])
        i = trail["plan"][k] if k < len(trail["plan"]) else 0
        trail["taken"].append((i, len(opts)))
        return opts[i]
    return replay


class Plan(object):
    """the cases, announcing each one taken"""
    def __init__(self, cases, log, on):
        self.cases, self.log, self.on = cases, log, on

    def __iter__(self):
        for i, c in enumerate(self.cases):
            if self.on:
                self.log.append({"op": "take", "c": i + 1})
            yield c


def caseval(c):
    import numpy as np
    return np.array([float(c), 0.5 * c])


def make_problem(job, sched, master):
    """the model: a component that knows the case from its input and fails as the job says"""
    import numpy as np
    from openmdao.api import Problem, Group, Component, IndepVarComp, CaseDriver, AnalysisError
    from openmdao.recorders.base_recorder import BaseRecorder
    out = job["out"]

    class Comp(Component):
        def __init__(self):
            super(Comp, self).__init__()
            self.add_param("x", val=np.zeros(2))
            self.add_output("y", val=np.zeros(2))
            self.add_output("z", val=0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            x = params["x"].copy()
            c = int(round(x[0]))
            sched.log.append({"op": "start", "w": sched.me(), "c": c})
            if job["mid"]:
                sched.point()
            o = out[c - 1] if 1 <= c <= len(out) else "ok"
            if o == "fail":
                raise AnalysisError("case failed")
            if o == "fatal":
                raise job_exc(job)("something broke")
            unknowns["y"] = 10 * x + 1
            unknowns["z"] = 3 * x[0] - x[1]

    class Rec(BaseRecorder):
        def __init__(self):
            super(Rec, self).__init__()
            self.options["record_params"] = bool(job["params"])
            self._parallel = job["kind"] == "lb" or False

        def record_metadata(self, *a):
            pass

        def record_derivatives(self, *a):
            pass

        def close(self):
            pass

        def record_iteration(self, params, unknowns, resids, metadata):
            u = {k: np.array(unknowns[k]).ravel().tolist() for k in list(unknowns.keys())}
            p = {k: np.array(v).ravel().tolist() for k, v in params.items()} if job["params"] and isinstance(params, dict) else {}
            sched.log.append(record(u, p, metadata))

    def job_exc(job):
        return {"Runtime": RuntimeError, "Key": KeyError, "Type": TypeError, "Float": FloatingPointError}[job["exc"]]
    cases = []
    for i, o in enumerate(out):
        v = caseval(i + 1)
        c = [("x", v)]
        if job["split"]:
            c = [("x", v), ("w", float(i + 1))]
        if o == "bad":
            c = {"name": c + [("nosuch", 1.0)], "shape": [("x", np.zeros(5))]}[job["bad"]]
        cases.append(tuple(c) if job["split"] else c)
    d = CaseDriver(Plan(cases, sched.log, master), num_par_doe=job["par"], load_balance=job["lbflag"])
    prob = Problem(root=Group(), driver=d)
    prob.root.add("p", IndepVarComp([("x", np.zeros(2)), ("w", 0.0)]), promotes=["*"])
    prob.root.add("c", Comp(), promotes=["*"])
    d.add_desvar("x")
    if job["split"]:
        d.add_desvar("w")
    if job["resp"]:
        d.add_response(["x", "y", "z"][:job["resp"]] if job["resp"] < 3 else "x" and ["y", "x", "z"])
    if job["rec"]:
        d.add_recorder(Rec())
    with contextlib.redirect_stdout(io.StringIO()):
        prob.setup(check=False)
    return prob


def record(u, p, meta):
    c, vals = 0, True
    x = u.get("x") or p.get("c.x")
    if x:
        c = int(round(x[0]))
    want = {"x": [c, .5 * c], "y": [10 * c + 1, 5 * c + 1], "z": [2.5 * c], "w": [c]}
    okrun = meta.get("success")
    for k, v in u.items():
        if k in ("x",) or (okrun and k in ("y", "z")):
            vals = vals and v == want[k]
    for k, v in p.items():
        if k == "c.x" or k == "x":
            vals = vals and v == want["x"]
    co = meta.get("coord")
    coord = 0
    try:
        coord = int(co[-1][0]) + 1
    except Exception:
        pass
    return {"op": "rec", "c": c, "vals": bool(vals), "success": bool(okrun), "msg": bool(meta.get("msg")), "coord": coord}


def one_run(job, choose):
    """run the job under the given choices"""
    import openmdao.drivers.predeterminedruns_driver as pd
    import openmdao.recorders.recording_manager as rm
    import openmdao.core.mpi_wrap as mw
    kind = job["kind"]
    s = Sched(choose)
    resp = []
    saved = (pd.MPI, pd.multiprocessing, rm.MPI, mw.MPI)
    hush = io.StringIO()
    import logging
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(hush), contextlib.redirect_stderr(hush):
            if kind in ("mp", "serial"):
                prob = make_problem(job, s, True)
                pd.multiprocessing = FakeMP(s, lambda k: make_problem(job, s, False), 0)

                def master():
                    try:
                        prob.run()
                    finally:
                        resp.extend(prob.driver.get_responses())
                s.spawn(0, master)
                actors = [0] if kind == "serial" else list(range(job["par"] + 1))
            elif kind == "eval":
                from openmdao.util.concurrent import concurrent_eval_lb
                out, size = job["out"], job["par"] + 1
                w = World(s, size)

                def func(c, k=0):
                    c = c + k
                    s.log.append({"op": "start", "w": s.me(), "c": c})
                    if job["mid"]:
                        s.point()
                    if out[c - 1] != "ok":
                        raise ValueError("no")
                    return [c, 10 * c]
                cases = [((i + 1,), None) if i % 2 else ([i], {"k": 1}) for i in range(len(out))]

                def rank(r):
                    def go():
                        pl = Plan(cases, s.log, True)
                        res = concurrent_eval_lb(func, pl if job["split"] else (list(pl) if r == 0 else cases) , Comm(w, list(range(size)), r, "w"), broadcast=job["resp"] > 0)
                        if r == 0 or job["resp"]:
                            resp.append((r, res))
                    return go
                for r in range(size):
                    s.spawn(r, rank(r))
                actors = list(range(size))
            else:
                size = job["size"]
                w = World(s, size)
                probs = {}
                for r in range(size):
                    probs[r] = make_problem(job, s, kind == "lb" and r == 0)
                pd.MPI = FakeMPI
                if kind == "par":
                    rm.MPI = mw.MPI = FakeMPI

                def rank(r):
                    def go():
                        prob = probs[r]
                        d = prob.driver
                        prob.root._sysdata.absdir = ""
                        d._setup_communicators(Comm(w, list(range(size)), r, "w"), os.getcwd())
                        d.recorders.rank = r
                        try:
                            prob.driver.run(prob)
                        finally:
                            if r == 0:
                                resp.extend(d.get_responses())
                    return go
                for r in range(size):
                    s.spawn(r, rank(r))
                actors = list(range(size))
            s.run()
    finally:
        pd.MPI, pd.multiprocessing, rm.MPI, mw.MPI = saved
        logging.disable(logging.NOTSET)
        os.environ.pop("OPENMDAO_WORKER_ID", None)
    log = [dict(e) for e in s.log]
    if kind == "serial":
        for e in log:
            e["op"] == "start"
    # what get_responses (or the function's own result list) says, in the order given
    final = []
    if kind == "eval":
        for r, res in resp:
            got = []
            for x in (res if isinstance(res, (list, tuple)) else []):
                v, err = x
                got.append({"c": v[0] if v else 0, "vals": bool(v is None or v[1] == 10 * v[0]), "ok": err is None, "msg": bool(err)})
            final.append({"r": r, "got": got})
    else:
        for vals, ok, msg in resp:
            u = {k: __import__("numpy").array(v).ravel().tolist() for k, v in vals}
            e = record({k: v for k, v in u.items() if k in ("x", "y", "z")}, {}, {"success": ok, "msg": msg})
            final.append(e)
    groups = {a: [a] for a in actors}
    if kind in ("lb", "par"):
        for r in actors:
            groups[r] = [q for q in actors if job["group"][q] == job["group"][r]]
    for e in log:
        if e["op"] == "start":
            e["grp"] = groups.get(e["w"], [e["w"]])
        if e["op"] == "rec" and kind != "mp":
            e["coord"] = 0
    excs = {str(k): a["exc"] for k, a in s.actors.items() if a["exc"]}
    return {"id": job["id"], "kind": kind, "outcome": "done", "out": list(job["out"]), "actors": actors, "log": log, "final": final,
            "hang": bool(s.hang), "resp": bool(job["resp"]) if kind != "eval" else True, "rec": bool(job["rec"]) and kind != "eval",
            "steps": s.steps, "excs": excs, "broadcast": kind == "eval" and job["resp"] > 0, "job": {k: job[k] for k in ("par", "lbflag", "seed", "kind")}}


def draw(rng, kind, i):
    nc = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
    par = rng.choice([2, 2, 3, 4])
    pool = rng.choice([["ok"], ["ok", "fail"], ["ok", "ok", "ok", "fatal"], ["ok", "ok", "fail", "fatal", "bad"], ["ok", "ok", "bad"]])
    if kind in ("lb", "par"):
        pool = [p for p in pool if p != "bad"]
    if kind == "eval":
        pool = ["ok", "ok", "fail"]
    j = {"kind": kind, "out": [rng.choice(pool) for _ in range(nc)], "par": par, "lbflag": rng.random() < .3, "mid": rng.random() < .7,
         "params": rng.random() < .3, "split": rng.random() < .5, "bad": rng.choice(["name", "shape"]), "resp": rng.choice([0, 2, 3, 3]),
         "rec": rng.random() < .8, "exc": rng.choice(["Runtime", "Key", "Type", "Float"]), "mode": rng.choice(["rand", "prio", "prio"]), "seed": i}
    if not j["rec"] and not j["resp"]:
        j["rec"] = True
    if kind == "serial":
        j["par"], j["lbflag"] = 1, rng.random() < .3
    if kind == "eval":
        j["par"] = rng.choice([0, 1, 2, 3, 4])
    if kind == "lb":
        j["lbflag"] = True
        size = par + rng.choice([0, 0, 0, 1, 2])     # processes per group differ
        n, k = divmod(size - 1, par - 1)
        sizes = [1] + [n + (1 if g < k else 0) for g in range(par - 1)]
        j["size"] = size
        j["group"] = [g for g in range(par) for _ in range(sizes[g])]
    if kind == "par":
        j["lbflag"] = False
        j["size"], j["group"] = par, list(range(par))
        j["rec"], j["resp"], j["params"] = True, rng.choice([0, 3]), False
    return j


def run_job(job):
    rng = random.Random(job["s"])
    if job.get("dfs"):
        # all schedules of a small configuration, up to a bound
        trail = {"plan": [], "taken": []}
        recs, seen = [], 0
        stack = list(job.get("prefix", []))
        plan = stack
        while seen < job["dfs"]:
            trail = {"plan": plan, "taken": []}
            r = one_run(job, chooser(rng, trail))
            seen += 1
            recs.append(r)
            t = trail["taken"]
            k = len(t) - 1
            while k >= len(job.get("prefix", [])) and t[k][0] + 1 >= t[k][1]:
                k -= 1
            if k < len(job.get("prefix", [])):
                break
            plan = [x[0] for x in t[:k]] + [t[k][0] + 1]
        return {"id": job["id"], "outcome": "done", "kind": "dfs", "recs": recs, "complete": seen < job["dfs"]}
    return one_run(job, chooser(rng, job["mode"]))


def check_C12(chk):
    for p in ("mp", "lb"):
        chk.mc("DispatchMC", cfg="DispatchMC_%s.cfg" % p, workers=4, timeout=600)
    kinds = ["mp"] * 6 + ["lb"] * 4 + ["eval"] * 2 + ["par", "serial"]
    jobs = []
    for i in range(chk.n(700, 12000)):
        rng = random.Random("%s-%d" % (chk.seed, i))
        j = draw(rng, kinds[i % len(kinds)], i)
        j.update(id="r%d" % i, s="%s-%d-s" % (chk.seed, i))
        jobs.append(j)
    recs = run_impl(chk, "c_dispatch:run_job", jobs)
    # every schedule of small configurations
    small = []
    for k, (kind, out) in enumerate([("mp", ["fatal", "ok"]), ("mp", ["ok", "ok"]), ("mp", ["fail", "ok"]), ("mp", ["bad", "ok"]),
                                     ("lb", ["ok", "ok", "ok"]), ("lb", ["fatal", "ok", "ok"]), ("eval", ["ok", "fail", "ok"]), ("eval", ["ok"] * 4)]):
        j = draw(random.Random(k), "lb" if kind == "lb" else kind, k)
        j.update(kind=kind, out=out, par=3 if kind == "lb" else 2, lbflag=kind == "lb", mid=False, params=False, split=False, resp=3, rec=kind != "eval", id="d%d" % k, s="d",
                 dfs=chk.n(150, 4000))
        if kind == "lb":
            j.update(size=3, group=[0, 1, 2])
        small.append(j)
    d = run_impl(chk, "c_dispatch:run_job", small)
    for r in d:
        for k, x in enumerate(r.get("recs", [])):
            x["id"] = "%s.%d" % (r["id"], k)
            recs.append(x)
        if "recs" not in r:
            recs.append(r)
    chk.notes["all_schedules_of_small_configurations_complete"] = [r["id"] for r in d if r.get("complete")]
    for r in recs:
        if r.get("outcome") != "done":
            for k, v in (("kind", "mp"), ("out", []), ("actors", [0]), ("log", []), ("final", []), ("hang", False), ("resp", False), ("rec", False), ("broadcast", False)):
                r.setdefault(k, v)
    chk.notes["runs"] = len(recs)
    chk.notes["events"] = sum(len(r["log"]) for r in recs)
    chk.sample(recs[0])
    chk.validate("DispatchTrace", recs)
