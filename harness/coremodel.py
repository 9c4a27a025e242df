"""Builds a model from its declaration record with the real library, performs a script of operations on it and
records the events.  Runs in worker processes (imports the code under test)."""
import io, warnings
from fractions import Fraction
import numpy as np
from common import rat
warnings.simplefilter("ignore")
from openmdao.api import (Problem, Driver, Group, Component, IndepVarComp, Newton, NLGaussSeidel, RunOnce, ScipyGMRES,
                          DirectSolver, LinearGaussSeidel, SubProblem)


def describe(exc):
    import sys, traceback
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f for f in tb if "/openmdao/" in f[0]]
    return "%s: %s @%s" % (type(exc).__name__, str(exc)[:200], ",".join("%s:%d" % (f[0].rsplit("/", 1)[1], f[1]) for f in fr[-3:]))


def near(x, d):
    """the rational with a denominator up to d that the result of an iteration stands for"""
    if not abs(x) < 1e5:
        return [0, 0]
    f = Fraction(x).limit_denominator(d)
    return [f.numerator, f.denominator] if abs(float(f) - x) <= 4e-8 * max(1., abs(x) / 100) else [0, 0]


class Log(object):
    def __init__(self, fx=0):
        self.ev = []
        self.on = True
        self.resid = False
        self.fx = fx

    def nums(self, val):
        a = np.asarray(val, dtype=float).ravel()
        if self.fx < 0:
            return [near(x, -self.fx) for x in a]
        if self.fx:
            return [[int(round(x * self.fx)), self.fx] if (x == x and abs(x) * self.fx < 2e6) else [0, 0] for x in a]
        return [rat(x) for x in a]

    def add(self, **kw):
        if self.on:
            self.ev.append(kw)


def num(r):
    return float(r[0]) / float(r[1])


def unit_kw(v):
    return {"units": v["unit"]} if v["unit"] else {}


def initval(v):
    a = np.array([num(x) for x in v["val"]])
    if v["sc"]:
        return float(a[0])
    return a.reshape(v["shape"])


def poly(terms, env):
    s = 0.0
    for t in terms:
        p = num(t["c"])
        for vi, k in t["v"]:
            p = p * env[vi][k - 1]
        s = s + p
    return s


def dpoly(terms, env, vi, k):
    s = 0.0
    for t in terms:
        for pos, (a, b) in enumerate(t["v"]):
            if a == vi and b == k:
                p = num(t["c"])
                for q, (c, d) in enumerate(t["v"]):
                    if q != pos:
                        p = p * env[c][d - 1]
                s = s + p
    return s


class _Base(Component):
    def setup_vars(self, cs, m, log):
        self._cs, self._m, self._log = cs, m, log
        for vi in cs["vin"]:
            v = m["vars"][vi - 1]
            kw = unit_kw(v)
            for o in cs.get("pp", []):
                if o["v"] == vi:
                    kw.update(form=o["form"], step_size=num(o["step"]), step_calc=o["calc"])
            if v["sized"]:
                self.add_param(v["name"], initval(v), **kw)
            else:
                self.add_param(v["name"], **kw)

    def env(self, params, unknowns=None):
        e = {}
        for vi in self._cs["vin"]:
            e[vi] = np.asarray(params[self._m["vars"][vi - 1]["name"]]).ravel()
        if unknowns is not None:
            for vi in self._cs["vout"]:
                e[vi] = np.asarray(unknowns[self._m["vars"][vi - 1]["name"]]).ravel()
        return e

    def hook(self, at):
        """a place where a component may fail, and where it notes the directory it runs in"""
        f = getattr(self._log, "hook", None)
        if f is not None:
            f(self._cs["path"], at)

    def record(self, kind, params, unknowns):
        if self._log.on:
            self._log.ev.append({
                "e": kind, "c": self._cs["path"], "r": bool(self._log.resid),
                "p": [self._log.nums(params[self._m["vars"][vi - 1]["name"]]) for vi in self._cs["vin"]],
                "o": [self._log.nums(unknowns[self._m["vars"][vi - 1]["name"]]) for vi in self._cs["vout"]]})

    def put(self, unknowns, vi, vals):
        v = self._m["vars"][vi - 1]
        if v["sc"]:
            unknowns[v["name"]] = vals[0]
        else:
            unknowns[v["name"]] = np.array(vals).reshape(v["shape"])


    def declared(self, J, vo, vi, way):
        """the partial derivatives with the mistakes that are to be declared"""
        for w in self._m.get("wrong", []):
            if w["o"] == vo and w["x"] == vi and w["dir"] in ("both", way):
                J = J.astype(float)
                J[w["r"] - 1, w["k"] - 1] += num(w["d"])
        return J


class PolyComp(_Base):
    """explicit component: outputs are polynomials of its inputs"""

    def __init__(self, cs, m, log):
        super(PolyComp, self).__init__()
        self.setup_vars(cs, m, log)
        for vi in cs["vout"]:
            v = m["vars"][vi - 1]
            self.add_output(v["name"], initval(v), **unit_kw(v))

    def solve_nonlinear(self, params, unknowns, resids):
        e = self.env(params)
        self.hook("solve")
        for vi in self._cs["vout"]:
            self.put(unknowns, vi, [poly(ts, e) for ts in self._m["fn"][vi - 1]])
        self.hook("solved")
        self.record("exec", params, unknowns)

    def apply_nonlinear(self, params, unknowns, resids):
        old, self._log.resid = self._log.resid, True
        try:
            super(PolyComp, self).apply_nonlinear(params, unknowns, resids)
        finally:
            self._log.resid = old

    def jac(self, params, unknowns, way="fwd"):
        e = self.env(params)
        J = {}
        for vo in self._cs["vout"]:
            for vi in self._cs["vin"]:
                if self._cs.get("nojac") and [vo, vi] in self._cs["nojac"]:
                    continue
                ts = self._m["fn"][vo - 1]
                ni = e[vi].size
                J[self._m["vars"][vo - 1]["name"], self._m["vars"][vi - 1]["name"]] = self.declared(np.array(
                    [[dpoly(t, e, vi, k + 1) for k in range(ni)] for t in ts]), vo, vi, way)
        return J

    def linearize(self, params, unknowns, resids):
        self.hook("linearize")
        if self._cs.get("mf"):
            self._cache = {"fwd": self.jac(params, unknowns, "fwd"), "rev": self.jac(params, unknowns, "rev")}
            return None
        return self.jac(params, unknowns)


class MFComp(PolyComp):
    """the same with a matrix-free linear operator"""

    def apply_linear(self, params, unknowns, dparams, dunknowns, dresids, mode):
        self.hook("apply")
        for (o, p), J in self._cache[mode].items():
            if o in dresids and p in dparams:
                if mode == "fwd":
                    dresids[o] += J.dot(np.asarray(dparams[p]).ravel()).reshape(np.shape(dresids[o]))
                else:
                    dparams[p] += J.T.dot(np.asarray(dresids[o]).ravel()).reshape(np.shape(dparams[p]))


class ImplComp(_Base):
    """implicit component: one state, residual polynomial R(inputs, state) = 0, linear in the state"""

    def __init__(self, cs, m, log):
        super(ImplComp, self).__init__()
        self.setup_vars(cs, m, log)
        for vi in cs["vout"]:
            v = m["vars"][vi - 1]
            self.add_state(v["name"], initval(v), **unit_kw(v))

    def coef(self, e, vo):
        """R = A s + b at the current inputs"""
        n = e[vo].size
        A = np.array([[dpoly(t, e, vo, k + 1) for k in range(n)] for t in self._m["fn"][vo - 1]])
        return A

    def solve_nonlinear(self, params, unknowns, resids):
        if self._cs.get("solves"):
            e = self.env(params, unknowns)
            vo = self._cs["vout"][0]
            A = self.coef(e, vo)
            e[vo] = np.zeros(e[vo].size)
            b = np.array([poly(t, e) for t in self._m["fn"][vo - 1]])
            self.put(unknowns, vo, list(np.linalg.solve(A, -b)))
        self.record("isolve", params, unknowns)

    def apply_nonlinear(self, params, unknowns, resids):
        e = self.env(params, unknowns)
        vo = self._cs["vout"][0]
        self.put(resids, vo, [poly(t, e) for t in self._m["fn"][vo - 1]])

    def linearize(self, params, unknowns, resids):
        e = self.env(params, unknowns)
        vo = self._cs["vout"][0]
        on = self._m["vars"][vo - 1]["name"]
        J = {(on, on): self.declared(self.coef(e, vo), vo, vo, "fwd")}
        for vi in self._cs["vin"]:
            J[on, self._m["vars"][vi - 1]["name"]] = self.declared(np.array(
                [[dpoly(t, e, vi, k + 1) for k in range(e[vi].size)] for t in self._m["fn"][vo - 1]]), vo, vi, "fwd")
        self._A = J[on, on]
        return J

    def solve_linear(self, dumat, drmat, vois, mode=None):
        vo = self._cs["vout"][0]
        on = self._m["vars"][vo - 1]["name"]
        if mode == "fwd":
            sol, rhs, A = dumat, drmat, self._A
        else:
            sol, rhs, A = drmat, dumat, self._A.T
        for voi in vois:
            sol[voi][on] = np.linalg.solve(A, np.asarray(rhs[voi][on]).ravel()).reshape(np.shape(rhs[voi][on]))


class LGroup(Group):
    _lpath = ""
    _log = None

    def solve_nonlinear(self, params=None, unknowns=None, resids=None, metadata=None):
        self._log.add(e="enter", g=self._lpath)
        super(LGroup, self).solve_nonlinear(params, unknowns, resids, metadata)
        self._log.add(e="exit", g=self._lpath)


NL = {"runonce": RunOnce, "nlgs": NLGaussSeidel, "newton": Newton}
LN = {"lngs": LinearGaussSeidel, "gmres": ScipyGMRES, "direct": DirectSolver}


def set_solvers(g, s):
    nl = s.get("nl", "runonce")
    g.nl_solver = NL[nl]()
    if nl != "runonce":
        g.nl_solver.options["maxiter"] = s.get("nlmax", 60)
        g.nl_solver.options["atol"] = 1e-11
        g.nl_solver.options["rtol"] = 1e-12
        g.nl_solver.options["iprint"] = -1
    ln = s.get("ln", "lngs")
    if ln == "direct_mvp":
        g.ln_solver = DirectSolver()
        g.ln_solver.options["jacobian_method"] = "MVP"
    elif ln == "direct_asm":
        g.ln_solver = DirectSolver()
        g.ln_solver.options["jacobian_method"] = "assemble"
    elif ln == "lngs_it":
        g.ln_solver = LinearGaussSeidel()
        g.ln_solver.options["maxiter"] = 100
        g.ln_solver.options["err_on_maxiter"] = True
        g.ln_solver.options["atol"] = 1e-11
        g.ln_solver.options["rtol"] = 1e-11
    else:
        g.ln_solver = LN[ln]()
        if ln == "gmres":
            g.ln_solver.options["atol"] = 1e-13
    try:
        g.ln_solver.options["iprint"] = -1
    except Exception:
        pass


def apply_fd(sys_, fd):
    if fd:
        if fd["type"] != "user":
            sys_.deriv_options["type"] = fd["type"]
        if "form" in fd:
            sys_.deriv_options["form"] = fd["form"]
            sys_.deriv_options["step_size"] = num(fd["step"])
            sys_.deriv_options["step_calc"] = fd.get("calc", "absolute")


def apply_chk(sys_, c):
    if c:
        sys_.deriv_options["check_type"] = c["type"]
        sys_.deriv_options["check_form"] = c["form"]
        sys_.deriv_options["check_step_size"] = num(c["step"])
        sys_.deriv_options["check_step_calc"] = c["calc"]


def declare(p, m, log):
    d = m.get("decl", {"dvs": [], "fns": []})
    if not d["dvs"] and not d["fns"]:
        return
    log.on = False
    p0 = build(m, log)      # names are known after setup
    p0.setup(check=False)
    log.on = True
    for v in d["dvs"]:
        p.driver.add_desvar(promname(p0, m, v), lower=-1e6, upper=1e6)
    for v, kind in d["fns"]:
        if kind == "obj":
            p.driver.add_objective(promname(p0, m, v))
        else:
            p.driver.add_constraint(promname(p0, m, v), upper=1e6)


def build(m, log, driver=None, root=None):
    groups = {}
    root = root or LGroup()
    root._log = log
    groups[""] = root
    set_solvers(root, m.get("rootsolv", {}))
    apply_fd(root, m.get("rootfd"))
    apply_chk(root, m.get("rootchk"))
    extend(groups, m, log, m["subs"], m["conns"])
    for path, order in m.get("order", []):
        groups[path].set_order(order)
    p = Problem(root=root) if driver is None else Problem(root=root, driver=driver)
    p._lgroups = groups
    return p


def extend(groups, m, log, subs, conns):
    """adds systems and connections to a model"""
    for s in subs:
        if s["kind"] == "group":
            o = LGroup()
            o._lpath, o._log = s["path"], log
            set_solvers(o, s.get("solv", {}))
            groups[s["path"]] = o
        elif s["kind"] == "indep":
            cs = s["cs"]
            o = IndepVarComp([(m["vars"][vi - 1]["name"], initval(m["vars"][vi - 1]), unit_kw(m["vars"][vi - 1]))
                              for vi in cs["vout"]])
        else:
            cls = {"comp": PolyComp, "mf": MFComp, "impl": ImplComp}[s["kind"]]
            if s["kind"] == "mf":
                s["cs"]["mf"] = True
            o = cls(s["cs"], m, log)
        apply_fd(o, s.get("fd"))
        apply_chk(o, s.get("chk"))
        wr = m.get("wrap", {}).get(s["path"])
        if wr is not None:      # the same group as a problem of its own
            groups.setdefault("problems", {})[s["path"]] = o = Problem(root=o)
            for vi, name, out, tgt in wr["entry"]:      # what is given from outside is an independent variable inside
                v = m["vars"][vi - 1]
                groups[s["path"]].add(name, IndepVarComp([(out, initval(v), unit_kw(v))]), promotes=None if tgt else [out])
                if tgt:
                    groups[s["path"]].connect(name + "." + out, tgt)
            o = SubProblem(o, params=list(wr["params"]), unknowns=list(wr["unknowns"]))
        groups[s["parent"]].add(s["name"], o, promotes=list(s["prom"]) if s["prom"] else None)
    for vi, name, tgt in m.get("stand", []):
        v = m["vars"][vi - 1]
        groups[""].add(name, IndepVarComp([("v", initval(v), unit_kw(v))]))
        groups[""].connect(name + ".v", tgt)
    for c in conns:
        idx = None
        if c["has"]:
            idx = list(c["idx"]) if c.get("as", "list") == "list" else np.array(c["idx"], dtype=int)
        g = groups[c["grp"]]
        if len(c["tgts"]) == 1 and idx is None:
            g.connect(c["src"], c["tgts"][0])
        else:
            g.connect(c["src"], list(c["tgts"]), src_indices=idx)


def locate(p, m, vi):
    """the problem a variable is to be reached through, its path in it and its name in it"""
    v = m["vars"][vi - 1]
    ab = v["comp"] + "." + v["name"]
    if "loc" in m:
        at, ab = m["loc"][vi - 1]
        if at:
            p = p._lgroups["problems"][at]
    return p, ab, p.root._sysdata.to_prom_name[ab]


def read_all(p, m, log, exact=False):
    """values of every output (by promoted name) and of every input that has no source"""
    out = []
    for vi, v in enumerate(m["vars"]):
        try:
            q, ab, nm = locate(p, m, vi + 1)
            if v["io"] != "in" or ab not in q.root.connections:
                val = q[nm]
                out.append([x.hex() for x in np.asarray(val, dtype=float).ravel()] if exact else log.nums(val))
            else:
                out.append([])
        except Exception:
            out.append(["err"] if exact else [[0, 0]])
    return out


def prepare(m):
    for s in m["subs"]:
        s.setdefault("fd", {"type": "user", "pp": []})
    m.setdefault("rootfd", {"type": "user"})
    for s in m["subs"]:
        if s["kind"] != "group":
            s["cs"] = {"path": s["path"],
                       "vin": [i + 1 for i, v in enumerate(m["vars"]) if v["comp"] == s["path"] and v["io"] == "in"],
                       "vout": [i + 1 for i, v in enumerate(m["vars"]) if v["comp"] == s["path"] and v["io"] != "in"]}
            s["cs"].update(s.get("opt", {}))
            s["cs"]["pp"] = s["fd"]["pp"]
            s["cs"]["nojac"] = m.get("nojac", [])


def run_case(job):
    """job: {'id','m','ops','tol',...} -> job + 'ev'"""
    m = job["m"]
    prepare(m)
    if "real" in job:
        m = dict(m, conns=job["real"])
    log = Log(job.get("fx", 0))
    rec = dict(job)
    rec["outcome"] = "done"
    p = None
    for op in job["ops"]:
        k = op["op"]
        if k == "setup":
            dang, cyc, ooo, ok, err = [], [], [], True, ""
            try:
                if p is None:
                    p = build(m, log)
                    declare(p, m, log)
                res = p.setup(check=True, out_stream=io.StringIO())
                dang = list(res["dangling_params"])
                cyc = [[sorted(x) for x in g] for g in res["cycles"]]
                ooo = [[g, [[n, list(subs)] for n, subs in l]] for g, l in res["out_of_order"]]
            except Exception as exc:
                ok, err = False, describe(exc)
            log.add(e="setup", ok=ok, err=err, dang=dang, cyc=cyc, ooo=ooo)
            if not ok:
                break
            log.add(e="read", vals=read_all(p, m, log))
        elif k == "expose":
            ok = True
            try:
                build(m, log).setup(check=False)
            except Exception as exc:
                ok = False
            log.add(e="expose", w=op["w"], v=op["v"], n=op["n"], inner=[x for x in m["wrap"] if x != op["w"]], ok=ok)
        elif k == "set":
            v = m["vars"][op["v"] - 1]
            ok = True
            try:
                q, _, name = locate(p, m, op["v"])
                a = np.array([num(x) for x in op["val"]])
                q[name] = float(a[0]) if v["sc"] else a.reshape(v["shape"])
            except Exception as exc:
                ok = False
            log.add(e="set", v=op["v"], val=op["val"], ok=ok)
            log.add(e="read", vals=read_all(p, m, log))
        elif k in ("run", "run_once"):
            ok, err = True, ""
            log.add(e="begin")
            try:
                getattr(p, k)()
            except Exception as exc:
                ok, err = False, describe(exc)
            log.add(e="ran", ok=ok, err=err)
            log.add(e="read", vals=read_all(p, m, log))
            if not ok:
                break
        elif k == "qrun":
            ok, err, log.on = True, "", False
            try:
                p.run()
            except Exception as exc:
                ok, err = False, describe(exc)
            log.on = True
            log.add(e="sync", ok=ok, err=err, vals=read_all(p, m, log))
            if not ok:
                break
        elif k in ("chkp", "chkt"):
            do_check(p, m, log, op)
        elif k == "grad":
            do_grad(p, m, log, op)
        elif k == "drv":
            p2 = do_drv(p, m, log, op)
        elif k == "sub":
            do_sub(p2 if op["on"] == "drv" else p, m, log, op)
    rec["ev"] = log.ev
    return rec


def promname(p, m, vi):
    return locate(p, m, vi)[2]


def meta_kw(d, size):
    kw = {}
    if d["has"]:
        kw["indices"] = list(d["idx"])
    for k in ("scaler", "adder"):
        if d.get(k):
            a = [num(x) for x in d[k]]
            kw[k] = a[0] if len(a) == 1 and not d.get("arr") else np.array(a)
    return kw


class GradDriver(Driver):
    """a driver that only runs the model once, as the library's optimizers do before asking for gradients"""

    def run(self, problem):
        self._problem = problem
        super(GradDriver, self).run(problem)


def do_drv(p, m, log, op):
    """a second problem with the same declaration, values and linear solvers, whose driver declares variables"""
    log.on = False
    ok, err, p2 = True, "", None
    try:
        p2 = build(m, log, driver=GradDriver())
        if op.get("voi"):
            p2.root.ln_solver.options["mode"] = op["voi"]
            p2.root.ln_solver.options["single_voi_relevance_reduction"] = True
        for d in op["dvs"]:
            p2.driver.add_desvar(promname(p, m, d["v"]), **meta_kw(d, 0))
        for d in op["fns"]:
            if d["kind"] == "obj":
                p2.driver.add_objective(promname(p, m, d["v"]), **meta_kw(d, 0))
            else:
                kw = meta_kw(d, 0)
                kw["upper" if d["kind"] == "con" else "equals"] = 1.0
                p2.driver.add_constraint(promname(p, m, d["v"]), **kw)
        p2.setup(check=False)
        for vi in op["copy"]:
            v = m["vars"][vi - 1]
            n = promname(p, m, vi)
            val = p[n]
            p2[n] = float(np.asarray(val).ravel()[0]) if v["sc"] else np.array(val)
        p2.run()
    except Exception as exc:
        ok, err = False, describe(exc)
    vals = read_all(p2, m, log) if ok else []
    log.on = True
    log.add(e="drv", vals=vals, ok=ok, err=err, dvs=op["dvs"], fns=op["fns"])
    return p2


def do_sub(p, m, log, op):
    log.on = False
    ok, err, J, keys, ikeys = True, "", [], [], []
    names = {}
    before = after = 0
    try:
        before = read_all(p, m, log, exact=True)
        for v in op["of"] + op["wrt"]:
            names[promname(p, m, v)] = v
        of = [promname(p, m, v) for v in op["of"]]
        wrt = [promname(p, m, v) for v in op["wrt"]]
        kw = {"mode": op["mode"], "return_format": op["fmt"]}
        if op["fmt"] == "dict" and op.get("sparsity"):
            kw["sparsity"] = dict((promname(p, m, o), [promname(p, m, w) for w in ws]) for o, ws in op["sparsity"])
        if op.get("inact"):
            kw["inactives"] = dict((promname(p, m, o), list(rows)) for o, rows in op["inact"])
        r = (p.driver if op["via"] == "driver" else p).calc_gradient(wrt, of, **kw)
        if op["fmt"] == "dict":
            keys = [names.get(k, 0) for k in r]
            for o in r:
                ikeys.append([names.get(k, 0) for k in r[o]])
                J.append([[log.nums(x) for x in np.atleast_2d(np.asarray(r[o][w]))] if r[o][w] is not None else []
                          for w in r[o]])
        else:
            J = [log.nums(x) for x in np.atleast_2d(np.asarray(r))]
        after = read_all(p, m, log, exact=True)
    except Exception as exc:
        ok, err = False, describe(exc)
    log.on = True
    e = dict((k, v) for k, v in op.items() if k != "op")
    e.update(e="sub", ok=ok, err=err, J=J, keys=keys, ikeys=ikeys, pure=same_hex(before, after) if ok else True)
    log.ev.append(e)


def inputs_of(p, m):
    """stored values of every input of every component, pass_by_obj or not"""
    out = {}
    for sub in p.root.components(recurse=True):
        for n in sub.params:
            out[sub.pathname, n] = np.array(sub.params[n], dtype=float).ravel().copy()
    return out


def same(a, b):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and
                                    np.all(np.abs(a[k] - b[k]) <= 1e-12 * (1 + np.abs(a[k]))) for k in a)


def do_check(p, m, log, op):
    """check of partial or total derivatives"""
    log.on = False
    total = op["op"] == "chkt"
    ran = p.driver.iter_count > 0
    before, inb = read_all(p, m, log, exact=True), inputs_of(p, m)
    ok, err, rep = True, "", []
    mats = lambda d, k: [log.nums(r) for r in np.atleast_2d(np.asarray(d[k], dtype=float))] if k in d else []

    def pair(o, x, d):
        mag, rel, ab = list(d["magnitude"]), list(d["rel error"]), list(d["abs error"])
        magfd = np.linalg.norm(d["J_fd"])
        return {"o": o, "x": x, "fwd": mats(d, "J_fwd"), "rev": mats(d, "J_rev"), "fd": mats(d, "J_fd"), "fd2": mats(d, "J_fd2"),
                "abs": log.nums([0. if v < 1e-7 else v for v in ab]), "nan": [bool(v != v) for v in rel],
                "rel": log.nums([0. if not v * magfd >= 1e-7 else v * magfd for v in rel]) if magfd else [],
                "mag": [log.nums([v])[0] if v is not None else [-1, 1] for v in mag]}
    try:
        out = io.StringIO() if op["stream"] else None
        if total:
            data = {"": p.check_total_derivatives(out_stream=out)}
            ids = dict((promname(p, m, i + 1), i + 1) for i, v in enumerate(m["vars"]) if v["io"] != "in")
        else:
            kw = {}
            if op["glob"]:
                kw["global_options"] = {{"form": "check_form", "step": "check_step_size", "calc": "check_step_calc", "type": "check_type"}[a]:
                                        (num(b) if a == "step" else b) for a, b in op["glob"].items()}
            data = p.check_partial_derivatives(out_stream=out, comps=list(op["comps"]) or None, compact_print=op["stream"] == 2, **kw)
        for c in data:
            if not total:
                ids = dict((v["name"], i + 1) for i, v in enumerate(m["vars"]) if v["comp"] == c)
            rep.append({"c": c, "pairs": [pair(ids.get(o, 0), ids.get(x, 0), d) for (o, x), d in data[c].items()]})
    except Exception as exc:
        ok, err = False, describe(exc)
    after, ina = read_all(p, m, log, exact=True), inputs_of(p, m)
    log.on = True
    log.add(e=op["op"], ok=ok, err=err, ran=ran, comps=op.get("comps", []), glob=dict(op.get("glob", {}), none=0), rep=rep,
            pure=same_hex(before, after), purein=same(inb, ina), vals=read_all(p, m, log))
    if ok and total:
        prs = rep[0]["pairs"]
        of, wrt = [], []
        for x in prs:
            if x["o"] not in of:
                of.append(x["o"])
            if x["x"] not in wrt:
                wrt.append(x["x"])
        get = dict(((x["o"], x["x"]), x) for x in prs)
        for mode, k in (("fwd", "fwd"), ("rev", "rev"), ("fd", "fd")):
            e = dict(e="grad", ok=True, err="", mode=mode, wrt=wrt, of=of, J=[[get.get((o, x), {k: []})[k] for x in wrt] for o in of], pure=True,
                     cl="C23:total-" + mode, purein=True)
            if k == "fd":
                e["chk"] = True
            elif set(of) != set(op["of"]) or set(wrt) != set(op["wrt"]):
                # parts of the gradient: to be compared with the whole of it
                log.on = False
                p.run()      # the inputs that the check left perturbed
                log.on = True
                do_grad(p, m, log, {"mode": mode, "of": op["of"], "wrt": op["wrt"]})
                e = dict(e="sub", ok=True, err="", J=e["J"], keys=of, ikeys=[wrt] * len(of), pure=True, mode=mode, of=of, wrt=wrt,
                         fmt="dict", on="p", via="calc", sparsity=[], inact=[], clause="C23:total-" + mode)
            log.ev.append(e)


def same_hex(a, b):
    try:
        return len(a) == len(b) and all(len(x) == len(y) and all(
            abs(float.fromhex(s) - float.fromhex(t)) <= 1e-12 * (1 + abs(float.fromhex(s))) for s, t in zip(x, y))
            for x, y in zip(a, b))
    except Exception:
        return a == b


def do_grad(p, m, log, op):
    log.on = False
    before = read_all(p, m, log, exact=True)
    inb = inputs_of(p, m)
    ok, err, J = True, "", []
    try:
        r = p.calc_gradient([promname(p, m, v) for v in op["wrt"]], [promname(p, m, v) for v in op["of"]],
                            mode=op.get("mode", "auto"), return_format="dict")
        for o in op["of"]:
            row = []
            for w in op["wrt"]:
                blk = np.atleast_2d(np.asarray(r[promname(p, m, o)][promname(p, m, w)]))
                row.append([log.nums(x) for x in blk])
            J.append(row)
    except Exception as exc:
        ok, err = False, describe(exc)
    after = read_all(p, m, log, exact=True)
    ina = inputs_of(p, m)
    log.on = True
    log.add(e="grad", ok=ok, err=err, mode=op.get("mode", "auto"), wrt=op["wrt"], of=op["of"], J=J,
            pure=same_hex(before, after), cl=op.get("cl", "C04:chain-rule"),
            purein=(same(inb, ina) if op.get("chkin") else True))
