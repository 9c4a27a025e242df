"""Histories of operations on one Problem (C16): set up again, extended, failing, refused operations."""
import io, os, shutil, tempfile
import numpy as np
import coremodel as cm
from coremodel import Log, describe, num, read_all, LGroup
from openmdao.api import AnalysisError, Component

EXC = {"ValueError": ValueError, "AnalysisError": AnalysisError, "KeyboardInterrupt": KeyboardInterrupt,
       "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError}


class Hook(object):
    def __init__(self, base):
        self.base, self.seen, self.fault, self.fired = base, [], None, False

    def rel(self):
        r = os.path.relpath(os.path.realpath(os.getcwd()), self.base)
        return [] if r == "." else r.split(os.sep)

    def __call__(self, comp, at):
        if at in ("solve", "linearize"):
            x = [comp, at, self.rel()]
            if x not in self.seen:
                self.seen.append(x)
        f = self.fault
        if f and f["c"] == comp and f["at"] == at:
            f["n"] -= 1
            if f["n"] <= 0:
                self.fault, self.fired = None, True
                raise EXC[f["exc"]]("injected failure")


def set_dir(sys_, d, base):
    sys_.directory = "" if not d["has"] else os.path.join(*(([base] if d["abs"] else []) + (d["d"] or ["."])))


def system(p, groups, s):
    if s["kind"] == "group":
        return groups[s["path"]]
    return groups[s["parent"]]._subsystems[s["name"]]


def apply_dirs(p, m, base):
    groups = p._lgroups
    set_dir(p.root, m["rootdir"], base)
    for s in m["subs"]:
        set_dir(system(p, groups, s), s["dir"], base)
        def where(path):
            x = next((s for s in m["subs"] if s["path"] == path), None)
            d, up = (m["rootdir"], []) if x is None else (x["dir"], where(x["parent"]))
            return up if not d["has"] else d["d"] if d["abs"] else up + d["d"]
    for path in [""] + [s["path"] for s in m["subs"]]:
        q = os.path.join(base, *where(path)) if where(path) else base
        if not os.path.isdir(q):
            os.makedirs(q)


def attempt(f):
    try:
        f()
        return ""
    except BaseException as exc:
        return type(exc).__name__


def run_history(job):
    """job: {'id','segs':[{'m','ops',...}]} -> one record per segment"""
    rec = dict((k, v) for k, v in job.items() if k != "segs")
    rec.update(outcome="done", segs=[])
    base = os.path.realpath(tempfile.mkdtemp(prefix="life"))
    home = os.getcwd()
    log = Log()
    log.hook = Hook(base)
    log.hook.base = base
    p = None
    try:
        os.chdir(base)
        for i, seg in enumerate(job["segs"]):
            m = seg["m"]
            cm.prepare(m)
            log.ev = []
            out = dict(seg)
            rec["segs"].append(out)
            if p is None:
                p = cm.build(m, log)
                apply_dirs(p, m, base)
            else:
                change(p, m, seg, log, base)
            for op in seg["ops"]:
                if not do_op(p, m, log, op):
                    break
                log.ev.append({"e": "dirs", "cwd": log.hook.rel(), "l": log.hook.seen})
                log.hook.seen = []
                os.chdir(base)      # one lost directory is reported once
            out["ev"] = log.ev
    finally:
        os.chdir(home)
        shutil.rmtree(base, ignore_errors=True)
    return rec


def change(p, m, seg, log, base):
    groups = p._lgroups
    if seg.get("solvers"):
        cm.set_solvers(p.root, m["rootsolv"])
        for s in m["subs"]:
            if s["kind"] == "group" and s["path"] in groups:
                cm.set_solvers(groups[s["path"]], s["solv"])
    cm.extend(groups, m, log, [s for s in m["subs"] if s["path"] in seg.get("newsubs", [])],
              [m["conns"][k] for k in seg.get("newconns", [])])
    for path, order in m["order"]:
        groups[path].set_order(order)
    for s in m["subs"]:
        if s["kind"] not in ("group", "indep"):
            o = system(p, groups, s)
            if s["kind"] == "mf":
                s["cs"]["mf"] = True
            o._m, o._cs = m, s["cs"]
    apply_dirs(p, m, base)


class Late(Component):
    pass


def misuse(p, m, what):
    v = next(x for x in m["vars"] if x["io"] != "in")
    n = v["comp"] + "." + v["name"]
    comp = system(p, p._lgroups, next(s for s in m["subs"] if s["path"] == v["comp"]))
    try:
        n = p.root._sysdata.to_prom_name.get(n, n)
    except Exception:
        pass
    {"get": lambda: p[n], "set": lambda: p.__setitem__(n, 7.0), "run": p.run, "run_once": p.run_once,
     "grad": lambda: p.calc_gradient([n], [n], mode="fwd"), "gradfd": lambda: p.calc_gradient([n], [n], mode="fd"),
     "chkp": lambda: p.check_partial_derivatives(out_stream=None), "chkt": lambda: p.check_total_derivatives(out_stream=None),
     "add_param": lambda: comp.add_param("late", 1.0), "add_output": lambda: comp.add_output("late", 1.0),
     "add_state": lambda: comp.add_state("late", 1.0), "again": lambda: comp.add_output(v["name"], 1.0)}[what]()


def do_op(p, m, log, op):
    k = op["op"]
    if k == "refuse":
        log.on = False
        r = attempt(lambda: misuse(p, m, op["what"]))
        log.on = True
        log.add(e="refuse", what=op["what"], refused=r != "")
    elif k == "setup":
        dang, cyc, ooo, ok, err = [], [], [], True, ""
        try:
            res = p.setup(check=True, out_stream=io.StringIO())
            dang = list(res["dangling_params"])
            cyc = [[sorted(x) for x in g] for g in res["cycles"]]
            ooo = [[g, [[n, list(subs)] for n, subs in l]] for g, l in res["out_of_order"]]
        except Exception as exc:
            ok, err = False, describe(exc)
        if not ok and op.get("then"):
            log.on = False
            r = attempt(lambda: misuse(p, m, "run"))
            log.on = True
            log.add(e="refuse", what="run after a refused setup", refused=r != "")
        log.add(e="setup", ok=ok, err=err, dang=dang, cyc=cyc, ooo=ooo)
        if not ok:
            return False
        log.add(e="read", vals=read_all(p, m, log))
    elif k == "set":
        v = m["vars"][op["v"] - 1]
        ok = True
        try:
            a = np.array([num(x) for x in op["val"]])
            p[p.root._sysdata.to_prom_name[v["comp"] + "." + v["name"]]] = float(a[0]) if v["sc"] else a.reshape(v["shape"])
        except Exception as exc:
            ok = False
        log.add(e="set", v=op["v"], val=op["val"], ok=ok)
        log.add(e="read", vals=read_all(p, m, log))
    elif k in ("run", "run_once"):
        ok, err = True, ""
        log.add(e="begin")
        try:
            getattr(p, k)()
        except Exception as exc:
            ok, err = False, describe(exc)
        log.add(e="ran", ok=ok, err=err)
        log.add(e="read", vals=read_all(p, m, log))
        if not ok:
            return False
    elif k == "fail":
        log.on = False
        h = log.hook
        h.fault, h.fired = dict(op["fault"]), False
        names = lambda l: [cm.promname(p, m, v) for v in l]
        f = {"run": p.run, "run_once": p.run_once,
             "grad": lambda: p.calc_gradient(names(op.get("wrt", [])), names(op.get("of", [])), mode=op.get("mode", "fwd"), return_format="dict")}
        raised = attempt(f[op["what"]])
        h.fault = None
        log.on = True
        log.add(e="fail", op=op["what"] + op.get("mode", ""), exc=op["fault"]["exc"], fired=h.fired, raised=raised, vals=read_all(p, m, log))
    elif k == "grad":
        cm.do_grad(p, m, log, op)
    return True
