"""C09, C10: recorders on drivers and on solvers of nested groups; files read back.  See Record.tla."""
import copy
import os
import random
import tempfile
import shutil
import time
from io import StringIO
from common import run_impl

PATS = ["*", "*", "*y", "*.y", "c?.*", "?_*", "*_c[12]", "*[!x]", "g1*", "g[0-9].*", "nope", "Y*", "c1.y", "*.mk9.*", "p.*", "*tag*", "*.g2.*", "c[a-z0-1].?"]


def canon(v):
    """the type, shape and value of a recorded value as text"""
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "fc":
            return "a%s%s" % (list(v.shape), [float(x).hex() for x in v.ravel()])
        return "a%s%s%s" % (v.dtype.kind, list(v.shape), v.tolist())
    if isinstance(v, (float, np.floating)):
        return "f" + float(v).hex()
    if hasattr(v, "payload"):
        return "P%r" % (v.payload,)
    return type(v).__name__ + repr(v)


def flat_derivs(J):
    if isinstance(J, dict):
        return "{" + ";".join("%s:%s" % (k, flat_derivs(J[k])) for k in sorted(J)) + "}"
    return canon(J)


class Payload(object):
    """a value passed by object that is not a number"""
    def __init__(self, payload):
        self.payload = payload

    def __str__(self):
        return "P%r" % (self.payload,)


def run_job(job):
    import sys
    import numpy as np
    from openmdao.solvers.backtracking import BackTracking
    from openmdao.recorders.csv_recorder import CsvRecorder
    from openmdao.api import (Problem, Group, Component, IndepVarComp, ScipyGMRES, RunOnce, NLGaussSeidel, Newton, AnalysisError, CaseDriver,
                              InMemoryRecorder, SqliteRecorder, DumpRecorder, ScipyOptimizer, CaseReader)
    rng = random.Random(job["s"])
    shape = rng.choice([None, (1,), (2,), (3,), (2, 2)])
    n = 1 if shape is None else int(np.prod(shape))
    val0 = 0.5 if shape is None else np.full(shape, 0.5)
    driver = rng.choice(["base", "base", "cases", "cases", "scipy", "pyopt"])
    use_pbo = rng.random() < .5
    fail_at = set()
    if rng.random() < .35:
        fail_at = {rng.randint(2, 9) for _ in range(rng.randint(1, 2))}
    ev, groups, kinds, names, rank = [], {}, {}, {}, {}
    text, csvt = {}, {}

    def remember(v):
        c = canon(v)
        text[c] = str(v)
        csvt[c] = ",".join(map(str, v)) if isinstance(v, np.ndarray) else str(v)
        return c

    def snap(g):
        grp = groups[g]
        out = {}
        for k, vec in (("p", grp.params), ("u", grp.unknowns), ("r", grp.resids)):
            out[k] = {}
            for nm in vec:
                try:
                    out[k][nm] = remember(vec[nm])
                except KeyError:
                    pass
        return out

    class Node(Component):
        def __init__(self, nm, nin, seed, tag, fails):
            super(Node, self).__init__()
            self.nm, self.nin, self.tag, self.fails, self.calls = nm, nin, tag, fails, 0
            self.r = random.Random(seed)
            for k in range(nin):
                self.add_param("x%d_%s" % (k, nm), copy.deepcopy(val0))
            self.add_output("y_" + nm, copy.deepcopy(val0))
            self.co = [self.r.randint(1, 4) / 16. for _ in range(nin)]
            if tag:
                self.add_param("tin_" + nm, tag, pass_by_obj=True)
                self.add_output("tag_" + nm, copy.deepcopy(tag), pass_by_obj=True)

        def solve_nonlinear(self, params, unknowns, resids):
            self.calls += 1
            if self.fails and self.calls in fail_at:
                raise AnalysisError("boom-%d" % self.calls)
            unknowns["y_" + self.nm] = .7 + sum(c * params["x%d_%s" % (k, self.nm)] for k, c in enumerate(self.co)) + params["x0_" + self.nm] ** 2 / 64.
            if self.tag:
                t = unknowns["tag_" + self.nm]
                if isinstance(t, list):
                    t.append(self.calls)
                elif isinstance(t, dict):
                    t["n"] = self.calls
                elif isinstance(t, Payload):
                    t.payload.append(self.calls)
                else:
                    unknowns["tag_" + self.nm] = type(t)("7%d" % (self.calls % 10))

        def linearize(self, params, unknowns, resids):
            J = {("y_" + self.nm, "x%d_%s" % (k, self.nm)): c * np.eye(n) for k, c in enumerate(self.co)}
            J["y_" + self.nm, "x0_" + self.nm] += np.diag(np.ravel(params["x0_" + self.nm])) / 32.
            return J

    class Mark(Component):
        def __init__(self, g):
            super(Mark, self).__init__()
            self.g = g
            self.add_state("s", 0.25)

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns["s"] = 0.25
            ev.append(dict(snap(self.g), op="sweep", g=self.g))

        def apply_nonlinear(self, params, unknowns, resids):
            resids["s"] = unknowns["s"] - 0.25
            ev.append(dict(snap(self.g), op="apply", g=self.g))

        def linearize(self, params, unknowns, resids):
            ev.append({"op": "lin", "g": self.g})
            return {("s", "s"): 1.0}

    ys, ins, tags, tins, owner = [], [], [], [], {}
    count = [0]

    def fill(grp, path, depth):
        groups[path] = grp
        names[path] = path.split(".")[-1] if path else "root"
        nch = rng.randint(1, 3)
        kids = []
        if depth < 2:
            for j in range(rng.choice([0, 1, 1, 2]) if depth else rng.choice([0, 1, 1, 2])):
                kids.append("g%d" % (j + 1))
        plan = [("c", None)] * nch + [("g", k) for k in kids]
        rng.shuffle(plan)
        names_in = []
        for what, k in plan:
            names_in.append(k or "c%d" % (count[0] + 1))
            if what == "g":
                sub = Group()
                fill(sub, path + "." + k if path else k, depth + 1)
                grp.add(k, sub)
            else:
                count[0] += 1
                nm = "c%d" % count[0]
                nin = rng.randint(1, 2)
                tag = rng.choice(["s", [0], {"n": 0}, 3, Payload([0])]) if use_pbo and rng.random() < .5 else None
                c = Node(nm, nin, "%s%s" % (job["s"], nm), tag, rng.random() < .3)
                prom = rng.choice([None, ["*"], ["y_" + nm], ["y_*"]])
                grp.add(nm, c, promotes=prom)
                order.append((path, nm, c, prom))
        grp.add("mk9", Mark(path))
        grp.set_order((["p"] if not path else []) + [k for k in names_in] + ["mk9"])
        kind = rng.choice(["once", "once", "gs", "newton"])
        kinds[path] = kind
        grp.ln_solver = ScipyGMRES()
        if kind == "gs":
            grp.nl_solver = NLGaussSeidel()
            grp.nl_solver.options["maxiter"] = rng.choice([1, 2, 3, 5])
        elif kind == "newton":
            grp.nl_solver = Newton()
            grp.nl_solver.options["maxiter"] = rng.choice([1, 2, 3])
            grp.nl_solver.options["solve_subsystems"] = rng.random() < .6
            if rng.random() < .5:
                ls = BackTracking()
                ls.options["maxiter"] = rng.choice([1, 2])
                ls.options["c"] = rng.choice([.1, .9])
                ls.options["solve_subsystems"] = rng.random() < .5
                grp.nl_solver.line_search = ls
        else:
            grp.nl_solver = RunOnce()
        grp.nl_solver.options["iprint"] = -1 if kind != "once" else 0
        if kind in ("gs", "newton"):
            grp.nl_solver.options["err_on_maxiter"] = rng.random() < .05
            grp.nl_solver.options["atol"] = 10. ** -rng.choice([1, 4, 9])

    order = []
    root = Group()
    pname = rng.random() < .4
    root.add("p", IndepVarComp("x", copy.deepcopy(val0)), promotes=["x"] if pname else None)
    fill(root, "", 0)
    src = "x" if pname else "p.x"

    def at(path, nm, prom, var):
        import fnmatch
        v = var if prom and any(fnmatch.fnmatchcase(var, q) for q in prom) else nm + "." + var
        return path + "." + v if path else v
    outs = [src]
    cyc = rng.random() < .3
    for i, (path, nm, c, prom) in enumerate(order):
        for k in range(c.nin):
            q = rng.random()
            if q < .8:
                root.connect(rng.choice(outs), at(path, nm, prom, "x%d_%s" % (k, nm)))
            elif q < .9 and cyc and i + 1 < len(order):
                p2, n2, c2, pr2 = rng.choice(order[i + 1:])
                root.connect(at(p2, n2, pr2, "y_" + n2), at(path, nm, prom, "x%d_%s" % (k, nm)))
        outs.append(at(path, nm, prom, "y_" + nm))
        if c.tag is not None and tags and rng.random() < .7:
            same = [t for t, ty in tags if ty is type(c.tag)]
            if same:
                root.connect(rng.choice(same), at(path, nm, prom, "tin_" + nm))
        if c.tag is not None:
            tags.append((at(path, nm, prom, "tag_" + nm), type(c.tag)))
    last = outs[-1]
    prob = Problem(root=root)
    if driver == "cases":
        prob.driver = CaseDriver()
    elif driver == "scipy":
        prob.driver = ScipyOptimizer()
        prob.driver.options["optimizer"] = rng.choice(["SLSQP", "COBYLA"])
        prob.driver.options["disp"] = False
    elif driver == "pyopt":
        import c_driver
        sys.modules.get("pyoptsparse") or c_driver.fake_pyopt()
        from openmdao.drivers.pyoptsparse_driver import pyOptSparseDriver
        prob.driver = pyOptSparseDriver()
        prob.driver.options["optimizer"] = "SLSQP"
        prob.driver.options["print_results"] = False
    if driver != "base":
        prob.driver.add_desvar(src)
    if driver in ("scipy", "pyopt"):
        prob.driver.add_objective(last, indices=[0] if shape else None)
    tmp = tempfile.mkdtemp(prefix="verif_rec_")
    recs = []

    def make(type_, owners):
        i = len(recs)
        out = None
        if type_ == "mem":
            r = InMemoryRecorder()
        elif type_ == "sql":
            out = os.path.join(tmp, "r%d.db" % i)
            r = SqliteRecorder(out)
        elif type_ == "dump":
            out = StringIO()
            r = DumpRecorder(out)
        else:
            out = StringIO()
            r = CsvRecorder(out)
        o = {"p": rng.random() < .5, "u": rng.random() < .8, "r": rng.random() < .3, "d": rng.random() < .7}
        if type_ == "csv" and driver in ("base",) and rng.random() < .5:
            o["d"] = False
        inc = rng.choice([["*"], ["*"], rng.sample(PATS, 1), rng.sample(PATS, 2), [last], []])
        exc = rng.choice([[], [], rng.sample(PATS[2:], 1), rng.sample(PATS[2:], 2), [src]])
        for k, f in (("p", "params"), ("u", "unknowns"), ("r", "resids"), ("d", "derivs")):
            r.options["record_" + f] = o[k]
        r.options["includes"], r.options["excludes"] = list(inc), list(exc)
        if type_ != "csv":
            r.options["record_metadata"] = rng.random() < .8
        for w in owners:
            (prob.driver if w == "#driver" else groups[w].nl_solver).add_recorder(r)
        recs.append(dict(o, id=type_ + str(i), type=type_, owners=owners, inc=inc, exc=exc, rec=r, out=out, meta=bool(r.options["record_metadata"])))
    gl = sorted(groups)
    make(rng.choice(["mem", "sql"]), ["#driver"])
    make("mem", [rng.choice(gl)])
    if rng.random() < .6:
        make(rng.choice(["mem", "sql"]), sorted(set(["#driver"] * rng.randint(0, 1) + rng.sample(gl, min(len(gl), rng.randint(1, 3))))))
    if rng.random() < .5 and not use_pbo:
        make("dump", [rng.choice(gl + ["#driver"])])
    if rng.random() < .5:
        make("csv", [rng.choice(gl + ["#driver"])])
    if rng.random() < .5:
        make("mem", [rng.choice(gl)])
    t0 = time.time()
    prob.setup(check=False)
    rec_snap = any(r["p"] for r in recs)

    def wrap(g):
        solver = groups[g].nl_solver
        solve = solver.solve

        def go(*a, **k):
            ev.append({"op": "enter", "g": g})
            try:
                x = solve(*a, **k)
            except AnalysisError as e:
                s = snap(g) if g == "" else {"p": {}, "u": {}, "r": {}}
                ev.append(dict(s, op="exit", g=g, ok=False, err=str(e)))
                raise
            s = snap(g) if g == "" else {"p": {}, "u": {}, "r": {}}
            ev.append(dict(s, op="exit", g=g, ok=True, err=""))
            return x
        solver.solve = go
    for g in gl:
        wrap(g)
    calc = prob.driver.calc_gradient

    def grad(*a, **k):
        J = calc(*a, **k)
        ev.append({"op": "deriv", "v": flat_derivs(J)})
        return J
    prob.driver.calc_gradient = grad
    errs = []

    def msg(m):
        """the error a message is about, when it names it"""
        if not m:
            return ""
        for e in errs_now():
            if e in m:
                return e
        return "?" + m[-80:]

    def errs_now():
        return sorted({e["err"] for e in ev if e["op"] == "exit" and not e["ok"]}, key=lambda t: -len(t))

    def tab(d, c=canon):
        return [[k, c(v)] for k, v in d.items()]

    def dump_mem(i, r):
        out, tt = [], []
        for it in r["rec"].iters:
            tt.append(it["timestamp"])
            out.append({"c": it["iter"], "s": it["success"], "m": msg(it["msg"]), "p": tab(it.get("params", {})), "u": tab(it.get("unknowns", {})),
                        "r": tab(it.get("resids", {}))})
        td = [d["timestamp"] for d in r["rec"].deriv_iters]
        return {"recs": out, "ders": [flat_derivs(d["Derivatives"]) for d in r["rec"].deriv_iters], "times": ordered(tt) and ordered(td)}

    def ordered(t):
        now = time.time()
        return all(isinstance(x, float) and t0 <= x <= now for x in t) and t == sorted(t)

    def dump_text(i, r):
        out, ders, sec, cur, tt = [], [], None, None, []
        lines = r["out"].getvalue().split("\n")
        for j, ln in enumerate(lines):
            if ln.startswith("Timestamp: "):
                cur = {"c": "", "s": -1, "m": "", "p": [], "u": [], "r": []}
                sec = None
                tt.append(float(ln.split()[1]))
            elif cur is None:
                continue
            elif ln.startswith("Iteration Coordinate: "):
                c = ln[len("Iteration Coordinate: "):]
                if c.endswith("/Derivs"):
                    cur["c"] = c[:-7]
                    ders.append(cur)
                else:
                    cur["c"] = c
                    out.append(cur)
            elif ln.startswith("Iteration succeeded: "):
                cur["s"] = {"yes": 1, "no": 0}.get(ln.split(": ")[1], -2)
            elif ln.startswith("Error msg: "):
                rest = []
                for l2 in lines[j:]:
                    if l2.startswith("Timestamp") or l2 in ("Params:", "Unknowns:", "Resids:"):
                        break
                    rest.append(l2)
                cur["m"] = msg("\n".join(rest))
            elif ln in ("Params:", "Unknowns:", "Resids:"):
                sec = cur[ln[0].lower()]
            elif ln == "Derivatives:":
                sec = []
            elif ln.startswith("  ") and ln[2:3] != " " and sec is not None and ": " in ln:
                k, v = ln[2:].split(": ", 1)
                sec.append([k, v])
            elif sec:
                if ln:
                    sec[-1][1] += "\n" + ln
        return {"recs": out, "ders": [{"c": d["c"], "s": d["s"]} for d in ders], "times": ordered(tt)}

    def dump_csv(i, r):
        import csv
        rows = list(csv.reader(StringIO(r["out"].getvalue())))
        heads = rows[0] if rows else []
        dcol = len(heads) - 1 if heads and heads[-1] == "Derivatives" else -1
        ders = [x for x in rows[1:] if dcol > 0 and len(x) > dcol and x[dcol]]
        return {"heads": heads, "rows": [x for x in rows[1:] if x not in ders], "drows": ders, "times": True}

    def dump_sql(i, r):
        before = open(r["out"], "rb").read()
        rd = CaseReader(r["out"])
        keys = list(rd.list_cases())
        at_ = list(range(len(keys)))
        rng.shuffle(at_)
        out, tt = [], {}

        def fields(c):
            return {"c": c.case_id, "s": c.success, "m": msg(c.msg), "p": tab(c.parameters or {}), "u": tab(c.unknowns or {}), "r": tab(c.resids or {}),
                    "kinds": [c.parameters is not None, c.unknowns is not None, c.resids is not None], "d": "" if c.derivs is None else flat_derivs(c.derivs)}
        for k in at_[:12]:
            a, b = rd.get_case(k), rd.get_case(keys[k])
            fa = fields(a)
            tt[k] = a.timestamp
            same = fa == fields(b) and a.timestamp == b.timestamp and a.filename == r["out"]
            if a.unknowns:
                nm = sorted(a.unknowns)[0]
                same = same and canon(a[nm]) == canon(a.unknowns[nm])
            out.append(dict(fa, at=k + 1, same=same))
        meta = rd.format_version == 4
        if r["meta"]:
            for d, vec in ((rd.parameters, root.params), (rd.unknowns, root.unknowns)):
                meta = meta and d is not None and sorted(d) == sorted(vec) and all(d[x]["pathname"] == vec.metadata(x)["pathname"] for x in d)
        return {"keys": keys, "n": rd.num_cases, "recs": out, "untouched": before == open(r["out"], "rb").read(), "meta": bool(meta),
                "times": ordered([tt[k] for k in sorted(tt)])}
    dumps = {"mem": dump_mem, "dump": dump_text, "csv": dump_csv, "sql": dump_sql}

    def dump(which):
        for i in which:
            ev.append(dict(dumps[recs[i]["type"]](i, recs[i]), op="dump", i=i + 1))

    def point():
        x = np.array([rng.randint(-8, 8) / 4. for _ in range(n)])
        return x

    def fake_minimize(fun, x0, method=None, jac=None, bounds=None, constraints=(), tol=None, options=None, **kw):
        ev.append({"op": "begin"})
        x = np.array(x0, dtype=float)
        pts = []
        for _ in range(rng.randint(1, 4)):
            x = point()
            fun(x)
            pts.append(x)
            if jac and rng.random() < .6:
                J = jac(x)
                if isinstance(J, np.ndarray) and J.flags.writeable:
                    J *= 3.
        ev.append({"op": "end"})

        class R(object):
            pass
        r = R()
        r.x, r.success = rng.choice(pts + pts[-1:]), True
        return r

    def script(opt, sens):
        ev.append({"op": "begin"})
        for _ in range(rng.randint(1, 4)):
            dd = {src: point()}
            fd, fail = opt.objFun(dd)
            if not fail and sens is not None and rng.random() < .6:
                sd, _ = sens(dd, fd)
                for a in sd:         # an optimizer may work in the arrays it is given
                    for b in sd[a]:
                        if isinstance(sd[a][b], np.ndarray):
                            sd[a][b] *= 3.
        ev.append({"op": "end"})
        return sys.modules["pyoptsparse"].Solution(dd, {"value": 0})

    def run():
        nm = {"base": "Driver", "cases": "Driver"}.get(driver) or prob.driver.options["optimizer"]
        if driver == "cases":
            prob.driver.cases = [[(src, point() if shape is None or len(shape) < 2 else point())] for _ in range(rng.randint(0, 4))]
        else:
            prob[src] = point().reshape(shape) if shape else float(point()[0])
        ev.append({"op": "run", "name": nm})
        if driver == "scipy":
            import openmdao.drivers.scipy_optimizer as so
            so.minimize = fake_minimize
        elif driver == "pyopt":
            sys.modules["pyoptsparse"].script = script
        out = StringIO()
        import contextlib
        try:
            with contextlib.redirect_stdout(out):
                prob.run()
            return True
        except AnalysisError:
            return False
    for k in range(rng.choice([1, 1, 2, 3])):
        run()
        if rng.random() < .6:
            dump([rng.randrange(len(recs))])
    # the model goes on without being recorded: what was recorded stays
    for nm in list(root.unknowns):
        v = root.unknowns[nm]
        if isinstance(v, np.ndarray):
            v[:] = -99.
        elif isinstance(v, list):
            v.append("later")
        elif isinstance(v, dict):
            v["n"] = "later"
    if rng.random() < .5:
        prob.cleanup()
    dump(range(len(recs)))
    shutil.rmtree(tmp, ignore_errors=True)
    for r in recs:
        for k in ("rec", "out", "meta"):
            r.pop(k)
    return {"id": job["id"], "outcome": "done", "driver": driver, "kinds": dict(kinds), "names": dict(names), "recs": recs, "ev": ev,
            "text": dict(text, **{"#": ""}), "csv": dict(csvt, **{"#": ""})}


def records(chk, n, tag):
    recs = run_impl(chk, "c_record:run_job", [{"id": "%s%d" % (tag, i), "s": "%s-%s%d" % (chk.seed, tag, i)} for i in range(n)])
    for r in recs:
        if r["outcome"] != "done":
            r.update(driver="base", kinds={"": "once"}, names={"": "root"}, recs=[], ev=[{"op": "begin"}], text={"#": ""}, csv={"#": ""})
    chk.notes["runs"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "run")
    chk.notes["recorders"] = sum(len(r["recs"]) for r in recs)
    chk.notes["records_read"] = sum(len(e.get("recs", e.get("rows", []))) for r in recs for e in r["ev"] if e["op"] == "dump")
    chk.notes["failed_solves"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "exit" and not e["ok"])
    return recs


def check_C09(chk):
    chk.mc("RecordMC", workers=8, timeout=300)
    recs = records(chk, chk.n(300, 4000), "r")
    chk.sample(recs[0])
    chk.validate("RecordTrace", recs, relevant=lambda cl: cl.startswith("C09"))


def check_C10(chk):
    chk.mc("RecordMC", workers=8, timeout=300)
    recs = records(chk, chk.n(300, 4000), "f")
    chk.sample(recs[0])
    chk.validate("RecordTrace", recs, relevant=lambda cl: cl.startswith("C10") or cl.endswith("outcome"))
