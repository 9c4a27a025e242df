"""C11: design-of-experiments drivers.  The values of the design variables are taken from inside the model at every run."""
import contextlib, io, os, random
from common import run_impl

K = 10000


def fx(v):
    return int(round(float(v) * K))


def spec_vars(rng):
    vs = []
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        size = rng.choice([0, 1, 2, 2, 3])          # 0: a scalar
        n = max(1, size)
        idx = None
        if size > 1 and rng.random() < .35:
            idx = sorted(rng.sample(range(size), rng.randint(1, size)))
            if rng.random() < .4:
                rng.shuffle(idx)
        m = len(idx) if idx is not None else n
        arr = lambda f: [f() for _ in range(m)] if size and rng.random() < .5 else f()
        lo = arr(lambda: float(rng.randint(-6, 6)) + rng.choice([0, .25]))
        if isinstance(lo, list) or not size or rng.random() < .7:
            hi = [x + rng.choice([1., 2.5, 4.]) for x in lo] if isinstance(lo, list) else lo + rng.choice([1., 2., 5.])
        else:
            hi = [lo + rng.choice([1., 2.5, 4.]) for _ in range(m)]
        sc = rng.choice([1.0, 1.0, 2.0, -4.0, 0.5])
        ad = rng.choice([0.0, 0.0, 3.0, -0.5])
        if size and rng.random() < .25:
            sc = [rng.choice([1.0, 2.0, -0.5, 4.0]) for _ in range(m)]
        if size and rng.random() < .25:
            ad = [rng.choice([0.0, 1.0, -2.5]) for _ in range(m)]
        vs.append({"name": "v%d" % i, "size": size, "idx": idx, "lo": lo, "hi": hi, "sc": sc, "ad": ad, "m": m})
    return vs


def make(job, log, salt=0):
    import numpy as np
    from openmdao.api import (Problem, Group, Component, IndepVarComp, AnalysisError, FullFactorialDriver, UniformDriver,
                              LatinHypercubeDriver, CaseDriver)
    from openmdao.drivers.latinhypercube_driver import OptimizedLatinHypercubeDriver
    vs = job["vars"]

    class Watch(Component):
        def __init__(self):
            super(Watch, self).__init__()
            for v in vs:
                self.add_param(v["name"], val=np.zeros(v["size"]) if v["size"] else 0.0)
            self.add_output("y", val=np.zeros(2))

        def solve_nonlinear(self, params, unknowns, resids):
            x, e, rest = [], [], True
            for v in vs:
                a = np.array(params[v["name"]], dtype=float).ravel()
                x += [float(q) for q in a]
                idx = v["idx"] if v["idx"] is not None else range(len(a))
                e += [fx(a[q]) for q in idx]
                rest = rest and all(a[q] == 99. for q in range(len(a)) if q not in idx)
            fail = len(log) in job["fails"]
            y = [sum(x), x[0] - 1]
            log.append({"x": [q.hex() for q in x], "e": e, "rest": rest, "fail": fail, "y": [float(q).hex() for q in y]})
            if salt:
                np.random.rand(salt)
                random.random()
            if fail:
                raise AnalysisError("no")
            unknowns["y"] = np.array(y)
    d, n, par = job["driver"], job["n"], job.get("par", 1)
    kw = {"num_par_doe": par}
    if d == "full":
        drv = FullFactorialDriver(num_levels=n, **kw)
    elif d == "uniform":
        drv = UniformDriver(num_samples=n, seed=job["dseed"], **kw)
    elif d == "lhc":
        drv = LatinHypercubeDriver(num_samples=n, seed=job["dseed"], **kw)
    elif d == "olhc":
        drv = OptimizedLatinHypercubeDriver(num_samples=n, seed=job["dseed"], population=job["pop"], generations=job["gen"], norm_method=job["norm"], **kw)
    else:
        def val(v, c):
            a = [job["given"][c][sum(w["m"] for w in vs[:vs.index(v)]) + k] for k in range(v["m"])]
            return np.array(a) if v["size"] else a[0]
        cases = [[(v["name"], val(v, c)) for v in (vs if c % 2 == 0 else list(reversed(vs)))] for c in range(len(job["given"]))]
        drv = CaseDriver(cases if job["n"] % 2 else tuple(tuple(c) for c in cases), **kw)
    prob = Problem(root=Group(), driver=drv)
    init = [(v["name"], np.full(v["size"], 99.) if v["size"] else 99.) for v in vs]
    prob.root.add("p", IndepVarComp(init), promotes=["*"])
    prob.root.add("w", Watch(), promotes=["*"])
    if job["auto"]:
        drv.options["auto_add_response"] = True
    arr = lambda a: np.array(a) if isinstance(a, list) else a
    for v in vs:
        drv.add_desvar(v["name"], lower=arr(v["lo"]), upper=arr(v["hi"]), indices=v["idx"], scaler=arr(v["sc"]), adder=arr(v["ad"]))
    if job["resp"]:
        names = ["y"] + ([] if job["auto"] else [v["name"] for v in vs])
        drv.add_response(names)
    prob.setup(check=False)
    return prob


def study(job, salt=0, prob=None, log=None):
    import numpy as np
    if prob is None:
        log = []
        prob = make(job, log, salt)
    del log[:]
    prob.run()
    resp = []
    for vals, ok, msg in prob.driver.get_responses():
        u = dict(vals)
        h = lambda n: [float(q).hex() for q in np.array(u[n], dtype=float).ravel()] if n in u else ["missing"]
        resp.append({"x": [q for v in job["vars"] for q in h(v["name"])], "y": h("y"), "ok": bool(ok), "msg": bool(msg)})
    return {"runs": list(log), "resp": resp}, prob, log


def par_study(job):
    """the same study distributed over a faked MPI world, one process per group"""
    import c_dispatch as cd
    import openmdao.drivers.predeterminedruns_driver as pd
    import openmdao.recorders.recording_manager as rm
    import openmdao.core.mpi_wrap as mw
    par = job["par"]
    s = cd.Sched(cd.chooser(random.Random(job["s"]), "rand"))
    w = cd.World(s, par)
    log = []
    saved = (pd.MPI, rm.MPI, mw.MPI)
    try:
        probs = [make(job, log) for _ in range(par)]
        pd.MPI = rm.MPI = mw.MPI = cd.FakeMPI

        def rank(r):
            def go():
                d = probs[r].driver
                d._setup_communicators(cd.Comm(w, list(range(par)), r, "w"), os.getcwd())
                d.recorders.rank = r
                d.run(probs[r])
            return go
        for r in range(par):
            s.spawn(r, rank(r))
        s.run()
        for a in s.actors.values():
            if a["exc"]:
                raise RuntimeError("rank: " + a["exc"])
        if s.hang:
            raise RuntimeError("hang")
    finally:
        pd.MPI, rm.MPI, mw.MPI = saved
    return {"runs": log, "resp": []}


def run_job(job):
    job = dict(job, fails=set(job["fails"]))
    studies = []
    if job.get("par", 1) > 1:
        studies.append(par_study(job))
        seeded = False
    else:
        s1, prob, log = study(job)
        studies.append(s1)
        if job["again"]:
            random.random()
            studies.append(study(job, prob=prob, log=log)[0])       # the same driver once more
        if job["other"]:
            import numpy as np
            np.random.rand(3)
            studies.append(study(job, salt=job["salt"])[0])         # another driver, another history
        seeded = job["driver"] in ("full", "case") or job["dseed"] is not None
    lo, hi = [], []
    for v in job["vars"]:
        for k in range(v["m"]):
            lo.append(fx(v["lo"][k] if isinstance(v["lo"], list) else v["lo"]))
            hi.append(fx(v["hi"][k] if isinstance(v["hi"], list) else v["hi"]))
    return {"id": job["id"], "outcome": "done", "driver": job["driver"], "n": job["n"], "par": job["par"], "lo": lo, "hi": hi, "studies": studies,
            "given": [[fx(q) for q in c] for c in job["given"]], "seeded": seeded, "resp": job["resp"] and job.get("par", 1) == 1}


def draw(rng, i):
    d = ["full", "lhc", "uniform", "olhc", "case"][i % 5]
    vs = spec_vars(rng)
    tot = sum(v["m"] for v in vs)
    n = rng.choice([1, 2, 3, 5, 8])
    if d == "full":
        while rng.choice([2, 3, 4]) ** tot > 300:
            vs = spec_vars(rng)
            tot = sum(v["m"] for v in vs)
        n = rng.choice([q for q in (1, 2, 3, 4) if q ** tot <= 260] or [1])
        if n == 1 and rng.random() < .8:
            n = 2 if 2 ** tot <= 260 else 1
    if d in ("lhc", "olhc"):
        n = rng.choice([1, 2, 3, 4, 6, 9, 13])
    given = []
    if d == "case":
        for v in vs:
            v["sc"], v["ad"] = 1.0, 0.0
        n = rng.randint(1, 6)
        given = [[rng.randint(-800, 800) / 100. for _ in range(tot)] for _ in range(n)]
    par = rng.choice([1] * 7 + [2, 3])
    j = {"driver": d, "vars": vs, "n": n, "given": given, "dseed": rng.choice([None, 0, 1, rng.randint(2, 9999)]), "par": par,
         "resp": rng.random() < .8, "auto": rng.random() < .3, "again": rng.random() < .4, "other": rng.random() < .5, "salt": rng.choice([0, 1, 3]),
         "pop": rng.choice([3, 6, 10]), "gen": rng.choice([1, 2, 4, 8]), "norm": rng.choice([1, 2]),
         "fails": [k for k in range(300) if rng.random() < .15] if rng.random() < .5 else []}
    if j["auto"]:
        j["resp"] = True
    if par > 1:
        j["fails"] = []
    return j


def check_C11(chk):
    chk.mc("DoeMC", workers=4, timeout=300)
    jobs = []
    for i in range(chk.n(350, 5000)):
        rng = random.Random("%s-%d" % (chk.seed, i))
        j = draw(rng, i)
        j.update(id="p%d" % i, s="%s-%d" % (chk.seed, i))
        jobs.append(j)
    recs = run_impl(chk, "c_doe:run_job", jobs, per_job_timeout=25)
    chk.notes["studies"] = sum(len(r.get("studies", [])) for r in recs)
    chk.notes["model_runs"] = sum(len(s["runs"]) for r in recs for s in r.get("studies", []))
    chk.sample({k: v for k, v in recs[1].items() if k != "studies"})
    chk.validate("DoeTrace", recs)
