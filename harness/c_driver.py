"""C13 and C14: the driver's view of a model and the problem an optimizer is given.

Optimizers are stand-ins that evaluate the callbacks they are given at points of their own choice, or the real scipy
ones behind a wrapper that rounds the points they ask for (so that all numbers are exact) and logs every call."""
import random
from common import rat, run_impl

SCALERS = [[1, 1], [2, 1], [-1, 1], [1, 2], [-2, 1]]
ADDERS = [[0, 1], [1, 1], [-2, 1], [1, 2]]


# ---- declarations (no code under test) --------------------------------------------------------------------------
def gen(rng, kind):
    opt = kind != "view"
    srcs = []
    for i in range(rng.randint(1, 3)):
        shape = rng.choice([None, (1,), (2,), (3,), (2, 2)])
        n = 1
        for k in shape or ():
            n *= k
        srcs.append({"name": "x%d" % i, "shape": shape, "n": n, "pbo": kind == "view" and rng.random() < .08})
    resps = []
    for r in range(rng.randint(1, 3) + (1 if opt else 0)):
        n = 1 if (opt and r == 0 and rng.random() < .6) else rng.randint(1, 3)
        ents, used = [], set()
        for j in range(n):
            ts = []
            for _ in range(rng.randint(1, 3)):
                vs = []
                for _ in range(rng.randint(0 if ts else 1, 2)):
                    c = [(i + 1, k + 1) for i, s in enumerate(srcs) if not s["pbo"] for k in range(s["n"])]
                    if c:
                        vs.append(list(rng.choice(c)))
                used.update(v[0] for v in vs)
                ts.append({"c": [rng.choice([-3, -2, -1, 1, 2, 3]), 1], "v": vs})
            ents.append(ts)
        # an input may be connected to some entries of its source only
        part = {}
        for i in sorted(used):
            ks = sorted({v[1] for ts in ents for t in ts for v in t["v"] if v[0] == i})
            if rng.random() < .3:
                rng.shuffle(ks)
                part[i] = ks
        resps.append({"name": "y%d" % r, "n": n, "ents": ents, "used": sorted(used), "part": part})

    def decl(v, n, dv, obj=False):
        sub = rng.random() < .5 or (obj and opt)
        idx = list(range(1, n + 1))
        if sub:
            idx = rng.sample(idx, 1 if obj and opt else rng.randint(1, n))
        m = len(idx)
        d = {"v": v, "idx": idx, "hasidx": len(idx) < n or idx != sorted(idx) or rng.random() < .3}

        def per(vals, p_arr=.4):
            if rng.random() < p_arr:
                return "a", [rng.choice(vals) for _ in range(m)]
            return "s", [rng.choice(vals)] * m
        d["addf"], d["add"] = per(ADDERS) if rng.random() < .6 else ("d", [[0, 1]] * m)
        d["scf"], d["sc"] = per(SCALERS) if rng.random() < .6 else ("d", [[1, 1]] * m)

        def bound(lo, hi):
            f = rng.choice("sa")
            vals = [[rng.randint(lo, hi), 1] for _ in range(m)]
            if f == "s":
                vals = [vals[0]] * m
            h = [True] * m
            if f == "a" and rng.random() < .2:
                h[rng.randrange(m)] = False
            return f, [{"h": a, "b": b if a else [0, 1]} for a, b in zip(h, vals)]
        none = ("d", [{"h": False, "b": [0, 1]}] * m)
        d["lof"], d["lo"] = none
        d["upf"], d["up"] = none
        d["eqf"], d["eq"] = none
        if dv:
            if rng.random() < .6:
                d["lof"], d["lo"] = bound(-6, -1)
            if rng.random() < .6:
                d["upf"], d["up"] = bound(3, 8)
        elif not obj:
            r = rng.random()
            if r < .25:
                d["eqf"], d["eq"] = bound(-2, 4)
                d["eq"] = [dict(e, h=True) for e in d["eq"]]
            else:
                if r < .75:
                    d["lof"], d["lo"] = bound(-9, 0)
                if r > .5:
                    d["upf"], d["up"] = bound(1, 12)
            d["lin"] = False
            d["tol"] = {"h": False, "b": [0, 1]}
        return d
    order = list(range(len(srcs)))
    rng.shuffle(order)
    cand = [i for i in order if not (opt and srcs[i]["pbo"])]
    dvs = [decl(i + 1, srcs[i]["n"], True) for i in cand[:rng.randint(1, len(cand))]]
    for d in dvs:
        s = srcs[d["v"] - 1]
        if s["pbo"]:
            d.update(idx=list(range(1, s["n"] + 1)), hasidx=False, addf="d", scf="d", add=[[0, 1]] * s["n"], sc=[[1, 1]] * s["n"],
                     lof="d", upf="d", lo=[{"h": False, "b": [0, 1]}] * s["n"], up=[{"h": False, "b": [0, 1]}] * s["n"], eq=[{"h": False, "b": [0, 1]}] * s["n"])
    ro = list(range(len(resps)))
    if not opt:
        rng.shuffle(ro)
    no = 1 if opt else rng.randint(0, min(2, len(ro)))
    objs = [decl(r + 1, resps[r]["n"], False, True) for r in ro[:no]]
    cons = [decl(r + 1, resps[r]["n"], False) for r in ro[no:] if rng.random() < .9]
    return srcs, resps, dvs, objs, cons


def add_linear(rng, m):
    """for pyoptsparse: constraints that may be declared linear, and active tolerances"""
    srcs, resps, dvs, objs, cons = m
    for d in cons:
        lin = all(len(t["v"]) <= 1 for ts in resps[d["v"] - 1]["ents"] for t in ts)
        d["lin"] = lin and rng.random() < .6
        if not d["lin"] and rng.random() < .3:
            d["tol"] = {"h": True, "b": [rng.choice([1, 2, 4]), 1]}


def known(mode, m):
    """scale arrays that calc_gradient is known not to apply per entry (finding C05 array-scaler-ln)"""
    for d in (m[2] if mode == "fwd" else m[3] + m[4]):
        if d["scf"] == "a":
            d["scf"], d["sc"] = "s", [d["sc"][0]] * len(d["sc"])


# ---- with the code under test -------------------------------------------------------------------------------------
def build(rng, m, driver, mode):
    import numpy as np
    from openmdao.api import Problem, Group, IndepVarComp, Component, LinearGaussSeidel
    srcs, resps, dvs, objs, cons = m

    class Resp(Component):
        def __init__(self, r):
            super(Resp, self).__init__()
            self.r = r
            for i in r["used"]:
                n = len(r["part"][i]) if i in r["part"] else srcs[i - 1]["n"]
                sh = srcs[i - 1]["shape"]
                self.add_param("i%d" % i, 0.0 if (sh is None) else np.zeros(n if i in r["part"] else sh))
            self.add_output(r["name"], 0.0 if r["n"] == 1 and r.get("scalar") else np.zeros(r["n"]))

        def value(self, params, v):
            a = np.ravel(params["i%d" % v[0]])
            return a[self.r["part"][v[0]].index(v[1]) if v[0] in self.r["part"] else v[1] - 1]

        def solve_nonlinear(self, params, unknowns, resids):
            out = []
            for ts in self.r["ents"]:
                s = 0.0
                for t in ts:
                    p = float(t["c"][0])
                    for v in t["v"]:
                        p = p * self.value(params, v)
                    s += p
                out.append(s)
            unknowns[self.r["name"]] = out[0] if np.isscalar(unknowns[self.r["name"]]) else np.array(out)

        def linearize(self, params, unknowns, resids):
            J = {}
            for i in self.r["used"]:
                n = np.size(params["i%d" % i])
                M = np.zeros((self.r["n"], n))
                for j, ts in enumerate(self.r["ents"]):
                    for t in ts:
                        for q, v in enumerate(t["v"]):
                            if v[0] == i:
                                p = float(t["c"][0])
                                for q2, w in enumerate(t["v"]):
                                    if q2 != q:
                                        p = p * self.value(params, w)
                                M[j, self.r["part"][i].index(v[1]) if i in self.r["part"] else v[1] - 1] += p
                J[self.r["name"], "i%d" % i] = M
            return J
    prob = Problem(root=Group(), driver=driver)
    prob.root.ln_solver = LinearGaussSeidel()
    prob.root.ln_solver.options["mode"] = mode
    sub = prob.root.add("g", Group(), promotes=["*"] if rng.random() < .5 else None)
    sub.ln_solver = LinearGaussSeidel()
    sub.add("z", IndepVarComp("zz", 1.0), promotes=["zz"])
    gpre = "" if sub._promotes else "g."
    names, u0 = {}, []
    for i, s in enumerate(srcs):
        w = [rng.randint(-3, 5) for _ in range(s["n"])]
        u0.append([[k, 1] for k in w])
        val = float(w[0]) if s["shape"] is None else np.array(w, dtype=float).reshape(s["shape"])
        if rng.random() < .5:
            prob.root.add("p%d" % i, IndepVarComp(s["name"], val, pass_by_obj=s["pbo"]), promotes=[s["name"]])
            names["x", i + 1] = s["name"]
        else:
            prob.root.add("p%d" % i, IndepVarComp(s["name"], val, pass_by_obj=s["pbo"]))
            names["x", i + 1] = "p%d.%s" % (i, s["name"])
    for k, r in enumerate(resps):
        r["scalar"] = rng.random() < .5
        pro = rng.random() < .5
        ing = rng.random() < .5
        grp, pre = (sub, gpre) if ing else (prob.root, "")
        grp.add("c%d" % k, Resp(r), promotes=[r["name"]] if pro else None)
        names["y", k + 1] = pre + (r["name"] if pro else "c%d.%s" % (k, r["name"]))
        for i in r["used"]:
            tgt = pre + "c%d.i%d" % (k, i)
            if i in r["part"]:
                prob.root.connect(names["x", i], tgt, src_indices=[q - 1 for q in r["part"][i]])
            else:
                prob.root.connect(names["x", i], tgt)

    def kw(d, dv):
        k = {}
        if d["hasidx"]:
            k["indices"] = [i - 1 for i in d["idx"]] if rng.random() < .7 else np.array(d["idx"]) - 1
        for f, n in (("addf", "adder"), ("scf", "scaler")):
            v = [a / float(b) for a, b in d["add" if n == "adder" else "sc"]]
            if d[f] == "s":
                k[n] = v[0] if rng.random() < .7 or v[0] != int(v[0]) else int(v[0])
            elif d[f] == "a":
                k[n] = np.array(v)
        for f, n in (("lof", "lower"), ("upf", "upper"), ("eqf", "equals")):
            if d[f] == "d":
                continue
            v = [e["b"][0] / float(e["b"][1]) if e["h"] else (-1 if n == "lower" else 1) * float("inf") for e in d[f[:2]]]
            if d[f] == "s":
                k[n] = v[0]
            else:
                k[n] = np.array(v)
        if d.get("lin"):
            k["linear"] = True
        if d.get("tol", {}).get("h"):
            k["active_tol"] = float(d["tol"]["b"][0])
        return k
    for d in dvs:
        driver.add_desvar(names["x", d["v"]], **kw(d, True))
    for d in objs:
        driver.add_objective(names["y", d["v"]], **{k: v for k, v in kw(d, False).items()})
    for d in cons:
        driver.add_constraint(names["y", d["v"]], **kw(d, False))
    return prob, names, u0


def vec(v):
    import numpy as np
    return [rat(x) for x in np.ravel(np.asarray(v, dtype=float))]


def bnd(v, n):
    import numpy as np
    if v is None:
        return [{"h": False, "b": [0, 1]}] * n
    a = np.ravel(np.asarray(v, dtype=float))
    if a.size == 1:
        a = np.repeat(a, n)
    return [{"h": False, "b": [0, 1]} if abs(x) > 1e300 else {"h": True, "b": rat(x)} for x in a]


def model_values(prob, names, m):
    srcs, resps = m[0], m[1]
    return [vec(prob[names["x", i + 1]]) for i in range(len(srcs))], [vec(prob[names["y", i + 1]]) for i in range(len(resps))]


def record(job, m, u0, ev, opt):
    srcs, resps, dvs, objs, cons = m
    return {"id": job["id"], "outcome": "done", "opt": opt, "u0": u0, "y0": [[[0, 1]] * r["n"] for r in resps],
            "resp": [r["ents"] for r in resps], "dvs": dvs, "objs": objs, "cons": cons, "ev": ev}


def view_job(job):
    import numpy as np
    from openmdao.api import Driver
    rng = random.Random(job["s"])
    m = gen(rng, "view")
    srcs, resps, dvs, objs, cons = m
    driver = Driver()
    prob, names, u0 = build(rng, m, driver, "fwd")
    prob.setup(check=False)
    ev = []

    def get():
        dv, ob, co = driver.get_desvars(), driver.get_objectives(), driver.get_constraints()
        md, mc = driver.get_desvar_metadata(), driver.get_constraint_metadata()
        src, rsp = model_values(prob, names, m)
        nx = lambda d: names["x", d["v"]]
        ny = lambda d: names["y", d["v"]]
        ev.append({"op": "get", "src": src, "resp": rsp, "dv": [vec(dv[nx(d)]) for d in dvs], "obj": [vec(ob[ny(d)]) for d in objs],
                   "con": [vec(co[ny(d)]) for d in cons],
                   "dlo": [bnd(md[nx(d)]["lower"], len(d["idx"])) for d in dvs], "dup": [bnd(md[nx(d)]["upper"], len(d["idx"])) for d in dvs],
                   "clo": [bnd(mc[ny(d)]["lower"], len(d["idx"])) for d in cons], "cup": [bnd(mc[ny(d)]["upper"], len(d["idx"])) for d in cons],
                   "ceq": [bnd(mc[ny(d)]["equals"], len(d["idx"])) for d in cons]})
        if len(dv) != len(dvs) or len(ob) != len(objs) or len(co) != len(cons):
            raise ValueError("wrong number of driver variables")
    if rng.random() < .5:
        prob.run()
        ev.append({"op": "run"})
    get()
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < .45:
            n = rng.randrange(len(dvs))
            d = dvs[n]
            s = srcs[d["v"] - 1]
            p = [rng.randint(-16, 16) / 4. for _ in d["idx"]]
            if not d["hasidx"] and not s["pbo"] and rng.random() < .25:
                k = rng.randrange(s["n"])
                driver.set_desvar(names["x", d["v"]], p[k], index=k)
                ev.append({"op": "seti", "n": n + 1, "k": k + 1, "p": rat(p[k])})
            else:
                v = np.array(p)
                if s["shape"] is None and rng.random() < .5:
                    v = p[0]
                elif not d["hasidx"] and s["shape"] and d["scf"] != "a" and d["addf"] != "a" and (rng.random() < .4 or s["pbo"]):
                    v = v.reshape(s["shape"])
                keep = np.array(v, copy=True)
                driver.set_desvar(names["x", d["v"]], v)
                if not np.array_equal(keep, v):
                    raise ValueError("the value given to set_desvar was changed")
                ev.append({"op": "set", "n": n + 1, "p": [rat(x) for x in p]})
        elif r < .7:
            i = rng.randrange(len(srcs))
            w = [float(rng.randint(-5, 5)) for _ in range(srcs[i]["n"])]
            prob[names["x", i + 1]] = w[0] if srcs[i]["shape"] is None else np.array(w).reshape(srcs[i]["shape"])
            ev.append({"op": "assign", "v": i + 1, "w": [rat(x) for x in w]})
        else:
            prob.run()
            ev.append({"op": "run"})
        if rng.random() < .7:
            get()
    get()
    return record(job, m, u0, ev, False)


def quant(x):
    import numpy as np
    return np.clip(np.round(np.nan_to_num(np.asarray(x, dtype=float)) * 8) / 8, -8, 8)


def scipy_job(job):
    import numpy as np
    from scipy.optimize import OptimizeResult
    from openmdao.drivers import scipy_optimizer as so
    rng = random.Random(job["s"])
    m = gen(rng, "opt")
    srcs, resps, dvs, objs, cons = m
    real = job["real"]
    opts = ["SLSQP", "SLSQP", "SLSQP", "COBYLA", "L-BFGS-B", "TNC", "BFGS", "CG", "Nelder-Mead", "Powell"]
    method = rng.choice(opts)
    if method not in ("SLSQP", "COBYLA"):
        del cons[:]
    if method == "COBYLA" and real:
        cons[:] = [d for d in cons if d["eqf"] == "d"]
    driver = so.ScipyOptimizer()
    driver.options["optimizer"] = method
    driver.options["disp"] = False
    driver.options["tol"] = 1e-3
    driver.options["maxiter"] = 8
    mode = rng.choice(["fwd", "rev"])
    known(mode, m)
    prob, names, u0 = build(rng, m, driver, mode)
    prob.setup(check=False)
    ev = []
    ends = []
    limit = 40

    def begin(x0, bounds, needb):
        ev.append({"op": "begin", "x0": vec(x0), "hasb": bounds is not None, "needb": needb,
                   "lo": [] if bounds is None else [bnd(b[0], 1)[0] for b in bounds], "up": [] if bounds is None else [bnd(b[1], 1)[0] for b in bounds]})

    def arg(v):
        v = np.asarray(v, dtype=float)
        return rat(v.ravel()[0] if v.size == 1 else float("nan"))

    def con_fg(c, x, wg):
        e = {"t": c["type"], "f": arg(c["fun"](x, *c.get("args", ()))), "g": []}
        if wg:
            e["g"] = vec(c["jac"](x, *c.get("args", ())))
        return e

    def fake(fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), **kw):
        begin(x0, bounds, method in ("SLSQP", "L-BFGS-B", "TNC"))
        seen = []
        grads = method in ("SLSQP", "L-BFGS-B", "TNC", "BFGS", "CG")
        for step in range(rng.randint(1, 6)):
            if seen and rng.random() < .2:
                x = rng.choice(seen).copy()
            elif rng.random() < .2:
                x = np.array(x0, dtype=float)
            else:
                x = np.array([rng.randint(-32, 32) / 8. for _ in range(len(x0))])
            if len(cons) and len(constraints) == 0 and any(e["h"] for d in cons for s in ("lo", "up", "eq") for e in d[s]):
                raise ValueError("no constraints")
            seen.append(x.copy())
            q = vec(x)
            ev.append({"op": "fun", "x": q, "f": arg(fun(x))})
            todo = ["c", "j"] if rng.random() < .5 else ["j", "c"]
            order = list(constraints)
            rng.shuffle(order)
            for t in todo:
                if t == "c" and len(constraints) and rng.random() < .8:
                    ev.append({"op": "cons", "x": q, "wg": False, "c": [con_fg(c, x, False) for c in order]})
                if t == "j" and grads and rng.random() < .8:
                    ev.append({"op": "jac", "x": q, "g": vec(jac(x))})
                    if len(constraints) and method == "SLSQP":
                        ev.append({"op": "cons", "x": q, "wg": True, "c": [con_fg(c, x, True) for c in order]})
            # optimizers reuse their arrays
            x[:] = 77.
        best = rng.choice(seen)
        ok = rng.random() < .6
        ends.append((vec(best), ok))
        return OptimizeResult(x=best.copy(), success=ok, status=0 if ok else 9, message="stand-in", fun=0.0, nfev=len(seen), nit=1)

    def tee(fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), **kw):
        begin(x0, bounds, method in ("SLSQP", "L-BFGS-B", "TNC"))

        def log(e):
            if len(ev) < limit:
                ev.append(e)

        def f(x):
            x = quant(x)
            v = fun(x)
            log({"op": "fun", "x": vec(x), "f": arg(v)})
            return float(np.ravel(v)[0])

        def g(x):
            x = quant(x)
            v = jac(x)
            log({"op": "jac", "x": vec(x), "g": vec(v)})
            return v

        def wrapc(c):
            c = dict(c)
            cf, cg, a = c["fun"], c.get("jac"), c.get("args", ())
            c["args"] = ()

            def nf(x):
                x = quant(x)
                v = cf(x, *a)
                log({"op": "con1", "x": vec(x), "wg": False, "c": [{"t": c["type"], "f": arg(v), "g": []}]})
                return v

            def ng(x):
                x = quant(x)
                v, gg = cf(x, *a), cg(x, *a)
                log({"op": "con1", "x": vec(x), "wg": True, "c": [{"t": c["type"], "f": arg(v), "g": vec(gg)}]})
                return gg
            c["fun"] = nf
            if cg is not None:
                c["jac"] = ng
            return c
        res = MIN(f, quant(x0), args=args, method=method, jac=g if jac is not None else None, bounds=bounds,
                  constraints=[wrapc(c) for c in constraints], **kw)
        best = quant(res.x)
        ends.append((vec(best), bool(res.success)))
        res.x = best
        return res
    MIN = so.minimize
    so.minimize = tee if real else fake
    try:
        if real:
            # start on the rounding grid, within the bounds
            for n, d in enumerate(dvs):
                p = []
                for i in range(len(d["idx"])):
                    a, s = d["add"][i], d["sc"][i]
                    lo = d["lo"][i]["b"][0] if d["lo"][i]["h"] else -4
                    up = d["up"][i]["b"][0] if d["up"][i]["h"] else 4
                    x = max(lo, min(up, 0))
                    p.append((x + a[0] / float(a[1])) * s[0] / float(s[1]))
                driver.set_desvar(names["x", d["v"]], np.array(p))
                ev.append({"op": "set", "n": n + 1, "p": [rat(v) for v in p]})
        for _ in range(rng.choice([1, 1, 2])):
            del ends[:]
            limit = len(ev) + 40
            prob.run()
            src, rsp = model_values(prob, names, m)
            ev.append({"op": "end", "best": ends[0][0], "success": ends[0][1], "flag": bool(driver.exit_flag), "src": src, "resp": rsp})
    finally:
        so.minimize = MIN
    return record(job, m, u0, ev, True)


def fake_pyopt():
    import sys, types
    mod = types.ModuleType("pyoptsparse")
    mod.script = None

    class Con(object):
        pass

    class Optimization(object):
        def __init__(self, name, objFun, comm=None):
            self.name, self.objFun = name, objFun
            self.dvs, self.objs, self.constraints = [], [], {}

        def addVarGroup(self, name, nVars, type="c", value=0.0, lower=None, upper=None, **kw):
            self.dvs.append((name, nVars, value, lower, upper))

        def finalizeDesignVariables(self):
            pass

        def addObj(self, name, *a, **kw):
            self.objs.append(name)

        def addConGroup(self, name, nCon, lower=None, upper=None, scale=1.0, linear=False, wrt=None, jac=None):
            import numpy as np
            c = Con()
            full = lambda b: [None] * nCon if b is None else [float(v) for v in np.broadcast_to(np.ravel(b), (nCon,))]
            c.n, c.lower, c.upper, c.linear, c.wrt, c.jac, c.value = nCon, full(lower), full(upper), linear, wrt, jac, None
            c.lo, c.up = lower, upper
            if name in self.constraints:
                raise ValueError("constraint given twice")
            self.constraints[name] = c

    class Solution(object):
        def __init__(self, dvs, inform):
            self.x, self.optInform = dvs, inform

        def getDVs(self):
            return self.x

    class Opt(object):
        def setOption(self, *a):
            pass

        def __call__(self, prob, sens=None, **kw):
            return mod.script(prob, sens)
    mod.Optimization, mod.Solution = Optimization, Solution
    for o in ("SLSQP", "SNOPT", "IPOPT", "NSGA2", "ALPSO"):
        setattr(mod, o, type(o, (Opt,), {}))
    sys.modules["pyoptsparse"] = mod
    return mod


def pyopt_job(job):
    import sys
    import numpy as np
    mod = sys.modules.get("pyoptsparse") or fake_pyopt()
    from openmdao.drivers.pyoptsparse_driver import pyOptSparseDriver
    rng = random.Random(job["s"])
    m = gen(rng, "opt")
    add_linear(rng, m)
    srcs, resps, dvs, objs, cons = m
    driver = pyOptSparseDriver()
    method = rng.choice(["SLSQP", "SNOPT", "SNOPT", "IPOPT", "ALPSO"])
    driver.options["optimizer"] = method
    driver.options["print_results"] = False
    mode = rng.choice(["fwd", "rev"])
    known(mode, m)
    prob, names, u0 = build(rng, m, driver, mode)
    prob.setup(check=False)
    ev, ends = [], []
    xn = [names["x", d["v"]] for d in dvs]
    on = [names["y", d["v"]] for d in objs]
    cn = [names["y", d["v"]] for d in cons]

    def dense(j, n, k):
        if j is None:
            return np.zeros((n, k))
        if isinstance(j, dict):
            M = np.zeros((n, k))
            row, col, dat = j["coo"]
            for r, c, v in zip(row, col, dat):
                M[int(r), int(c)] += v
            if list(j["shape"]) != [n, k]:
                raise ValueError("shape of a sparse block")
            return M
        return np.asarray(j, dtype=float).reshape(n, k)

    def rows(sd, name, d):
        n = len(d["idx"])
        blk = sd.get(name, {})
        M = np.hstack([dense(blk.get(x), n, len(e["idx"])) for x, e in zip(xn, dvs)])
        return [vec(r) for r in M]

    def script(opt, sens):
        if [v[0] for v in opt.dvs] != xn or sorted(opt.objs) != sorted(on) or set(opt.constraints) != set(cn):
            raise ValueError("not the declared problem: %r %r %r" % (opt.dvs, opt.objs, list(opt.constraints)))
        for v, d in zip(opt.dvs, dvs):
            if v[1] != len(d["idx"]):
                raise ValueError("size of a variable")
        cat = lambda ls: [x for l in ls for x in l]
        ev.append({"op": "pbegin", "x0": cat(vec(v[2]) for v in opt.dvs), "hasb": True, "needb": True,
                   "lo": cat(bnd(v[3], v[1]) for v in opt.dvs), "up": cat(bnd(v[4], v[1]) for v in opt.dvs),
                   "clo": [bnd(opt.constraints[n].lo, len(d["idx"])) for n, d in zip(cn, cons)],
                   "cup": [bnd(opt.constraints[n].up, len(d["idx"])) for n, d in zip(cn, cons)],
                   "lj": [rows({n: opt.constraints[n].jac}, n, d) if d["lin"] else [] for n, d in zip(cn, cons)]})
        for n, d in zip(cn, cons):
            c = opt.constraints[n]
            if bool(c.linear) != d["lin"] or c.n != len(d["idx"]):
                raise ValueError("declaration of a constraint")
            if not d["lin"] and set(c.wrt) - set(xn):
                raise ValueError("wrt of a constraint")
        seen = []
        for _ in range(rng.randint(1, 5)):
            x = np.array([rng.randint(-32, 32) / 8. for _ in range(sum(len(d["idx"]) for d in dvs))])
            seen.append(x)
            dd, o = {}, 0
            for n, d in zip(xn, dvs):
                dd[n] = x[o:o + len(d["idx"])].copy()
                o += len(d["idx"])
            fd, fail = opt.objFun(dd)
            if fail:
                raise ValueError("evaluation failed")
            ev.append({"op": "pfun", "x": vec(x), "o": [vec(fd[n]) for n in on], "c": [vec(fd[n]) if n in fd else [] for n in cn]})
            for n in cn:
                opt.constraints[n].value = np.array(fd[n], dtype=float).ravel() if n in fd else None
            if sens is not None and rng.random() < .8:
                sd, fail = sens(dd, fd)
                if fail:
                    raise ValueError("gradient failed")
                wr = {n: opt.constraints[n].wrt for n in cn}
                for n in cn:
                    # entries outside the announced sparsity are ignored by the optimizer
                    if n in sd and wr[n] is not None:
                        sd[n] = {k: v for k, v in sd[n].items() if k in wr[n]}
                ev.append({"op": "psens", "x": vec(x), "act": method == "SNOPT", "o": [rows(sd, n, d) for n, d in zip(on, objs)],
                           "c": [rows(sd, n, d) for n, d in zip(cn, cons)]})
        best = rng.choice(seen)
        ok = rng.random() < .6
        ends.append((vec(best), ok))
        dd, o = {}, 0
        for n, d in zip(xn, dvs):
            dd[n] = best[o:o + len(d["idx"])].copy()
            o += len(d["idx"])
        return mod.Solution(dd, {"value": rng.choice([0, 1]) if ok else rng.choice([3, 41])})
    mod.script = script
    for _ in range(rng.choice([1, 1, 2])):
        del ends[:]
        prob.run()
        src, rsp = model_values(prob, names, m)
        ev.append({"op": "end", "best": ends[0][0], "success": ends[0][1], "flag": bool(driver.exit_flag), "src": src, "resp": rsp})
    return record(job, m, u0, ev, True)


def fill(recs, opt):
    for r in recs:
        if r["outcome"] != "done":
            r.update(opt=opt, u0=[], y0=[], resp=[], dvs=[], objs=[], cons=[], ev=[{"op": "none"}])
    return recs


def check_C13(chk):
    chk.mc("DriverMC", workers=8, timeout=300)
    jobs = [{"id": "v%d" % i, "s": "v%s-%d" % (chk.seed, i)} for i in range(chk.n(600, 8000))]
    recs = fill(run_impl(chk, "c_driver:view_job", jobs), False)
    chk.notes["histories"] = len(recs)
    chk.notes["reads"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "get")
    chk.sample(recs[0])
    chk.validate("DriverTrace", recs)


def check_C14(chk):
    chk.mc("DriverMC", workers=8, timeout=300)
    jobs = [{"id": "f%d" % i, "s": "f%s-%d" % (chk.seed, i), "real": False} for i in range(chk.n(300, 5000))]
    jobs += [{"id": "r%d" % i, "s": "r%s-%d" % (chk.seed, i), "real": True} for i in range(chk.n(120, 2000))]
    recs = fill(run_impl(chk, "c_driver:scipy_job", jobs), True)
    jobs = [{"id": "p%d" % i, "s": "p%s-%d" % (chk.seed, i)} for i in range(chk.n(200, 3000))]
    recs += fill(run_impl(chk, "c_driver:pyopt_job", jobs), True)
    chk.notes["optimizations"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "end")
    chk.notes["callbacks"] = sum(1 for r in recs for e in r["ev"] if e["op"] in ("fun", "cons", "con1", "jac", "pfun", "psens"))
    chk.sample(recs[0])
    chk.validate("DriverTrace", recs)
