"""C15: option dictionaries.  Histories over plain dictionaries and over the dictionaries of real solvers, systems
and drivers; everything readable is read after every operation."""
import random, warnings
from common import run_impl


def tok(v, ranks=None):
    t = type(v).__name__
    n = -1
    if isinstance(v, (int, float, bool)) and v == v and ranks is not None:
        n = ranks.get(float(v), -1)
    return {"t": t, "n": n, "s": repr(v) if not isinstance(v, str) else v}


class Sym(object):
    """value -> token once all numbers of the history are known"""
    def __init__(self):
        self.nums = set()

    def see(self, v):
        if isinstance(v, (int, float)) and v == v:
            self.nums.add(float(v))
        return ("tok", v)

    def lim(self, v):
        if v is not None:
            self.nums.add(float(v))
        return ("lim", v)

    def resolve(self, x):
        r = {v: i for i, v in enumerate(sorted(self.nums))}

        def go(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "tok":
                return tok(x[1], r)
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "lim":
                return -1 if x[1] is None else r[float(x[1])]
            if isinstance(x, dict):
                return {k: go(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [go(v) for v in x]
            return x
        return go(x)


MISSING = "!default"


def snap(sym, d, k, names):
    reads = []
    for nm in names:
        try:
            item = sym.see(d[nm])
        except KeyError:
            item = {"t": "!KeyError", "n": -1, "s": ""}
        except Exception as e:
            item = {"t": "!" + type(e).__name__, "n": -1, "s": ""}
        try:
            dflt = object()
            g = d.get(nm, dflt)
            get = {"t": "!default", "n": -1, "s": ""} if g is dflt else sym.see(g)
        except Exception as e:
            get = {"t": "!" + type(e).__name__, "n": -1, "s": ""}
        reads.append({"name": nm, "item": item, "get": get, "has": nm in d})
    return {"d": k, "reads": reads, "items": [{"name": a, "v": sym.see(b)} for a, b in d.items()]}


NAMES = ["maxiter", "atol", "iprint", "mode", "err", "nlog"]
OLD = ["max_iter", "old_tol", "atol"]


def rand_val(rng, kinds=None):
    k = rng.choice(kinds or ["int", "float", "bool", "str", "nan", "none", "inf"])
    return {"int": lambda: rng.randint(-3, 6), "float": lambda: rng.choice([-1.5, 0.0, 0.5, 1.0, 2.0, 1e-6, 4.25]),
            "bool": lambda: rng.random() < .5, "str": lambda: rng.choice(["fd", "cs", "user", "gs", ""]),
            "nan": lambda: float("nan"), "none": lambda: None, "inf": lambda: rng.choice([float("inf"), -float("inf")])}[k]()


def run_plain(job):
    from openmdao.util.options import OptionsDictionary
    warnings.simplefilter("ignore")
    rng = random.Random(job["seed"])
    sym, ev = Sym(), []
    ds = [OptionsDictionary() for _ in range(2)]
    names = rng.sample(NAMES, 4)
    univ = names + OLD[:2] + ["junk"]
    add = 0
    for i in range(job["len"]):
        k = rng.randrange(2)
        d = ds[k]
        op = rng.choice(["add"] * 3 + ["set"] * 5 + ["remove", "dep"]) if i > 3 else "add"
        if i == job["lock"]:
            OptionsDictionary.locked = True
            ev.append({"op": "lock"})
        nm = rng.choice(names) if rng.random() < .85 else rng.choice(univ)
        e = {"op": op, "d": k + 1, "name": nm}
        try:
            if op == "add":
                if nm in OLD:
                    nm = e["name"] = names[0]
                v = rand_val(rng, ["int", "int", "float", "float", "bool", "str", "none"])
                lo = up = ch = None
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    if rng.random() < .5:
                        lo = type(v)(v - rng.choice([0, 1, 2]))
                    if rng.random() < .5:
                        up = type(v)(v + rng.choice([0, 0, 1, 2]))
                    if rng.random() < .1:
                        lo = v + 1
                if rng.random() < .25 and v is not None and not isinstance(v, bool):
                    ch = [v] + [rand_val(rng, [type(v).__name__]) for _ in range(2)]
                    rng.shuffle(ch)
                    if rng.random() < .15:
                        ch = [x for x in ch if x != v] or [rand_val(rng, ["str"]) + "x"]
                lock = rng.random() < .3
                e.update(v=sym.see(v), lo=sym.lim(lo), up=sym.lim(up), ch=[sym.see(x) for x in ch or []], lock=lock)
                kw = {}
                if lo is not None or rng.random() < .2: kw["lower"] = lo
                if up is not None: kw["upper"] = up
                if ch is not None: kw["values"] = ch
                if lock: kw["lock_on_setup"] = True
                d.add_option(nm, v, **kw)
            elif op == "set":
                o = d._options.get(nm) or d._options.get(d._deprecations.get(nm))
                kinds = None
                if o is not None and rng.random() < .7:
                    t = type(o["val"]).__name__
                    kinds = [t if t != "NoneType" else "none"]
                v = rand_val(rng, kinds)
                if o is not None and rng.random() < .35:
                    c = [x for x in (o["lower"], o["upper"]) if x is not None] + list(o["values"] or [])
                    if c:
                        v = rng.choice(c)
                if o is not None and o["values"] and any(x == v and type(x) != type(v) for x in o["values"]):
                    v = "other"
                e["v"] = sym.see(v)
                d[nm] = v
            elif op == "remove":
                if nm in OLD:
                    nm = e["name"] = names[0]
                d.remove_option(nm)
            else:
                e["name"] = rng.choice(OLD[:2])
                e["new"] = rng.choice(names)
                d._add_deprecation(e["name"], e["new"])
            e["ok"] = True
        except Exception:
            e["ok"] = False
        e["snap"] = [snap(sym, ds[j], j + 1, univ) for j in range(2)]
        ev.append(e)
    return {"id": job["id"], "kind": "plain", "outcome": "done", "kinds": ["plain", "plain"], "ev": sym.resolve(ev)}


def run_real(job):
    """Dictionaries declared by the real classes: their declarations are observed, then used before and after setup."""
    import openmdao.api as om
    from openmdao.solvers.backtracking import BackTracking
    from openmdao.util import options as uo
    from openmdao.core.system import DEFAULT_STEP_SIZE_FD, DEFAULT_STEP_SIZE_CS
    warnings.simplefilter("ignore")
    rng = random.Random(job["seed"])
    OD = uo.OptionsDictionary
    sym, ev, ds = Sym(), [], []
    idx = {}
    orig = (OD.add_option, OD.remove_option, OD._add_deprecation)

    def num(d):
        if id(d) not in idx:
            ds.append(d)
            idx[id(d)] = len(ds)
        return idx[id(d)]

    def add_option(self, name, value, lower=None, upper=None, values=None, desc='', lock_on_setup=False):
        k = num(self)
        e = {"op": "add", "d": k, "name": name, "v": sym.see(value), "lo": sym.lim(lower), "up": sym.lim(upper),
             "ch": [sym.see(x) for x in values or []], "lock": bool(lock_on_setup), "snap": [], "ok": True}
        ev.append(e)
        try:
            orig[0](self, name, value, lower=lower, upper=upper, values=values, desc=desc, lock_on_setup=lock_on_setup)
        except Exception:
            e["ok"] = False
            raise

    def remove_option(self, name):
        ev.append({"op": "remove", "d": num(self), "name": name, "ok": True, "snap": []})
        orig[1](self, name)

    def add_dep(self, old, new):
        ev.append({"op": "dep", "d": num(self), "name": old, "new": new, "ok": True, "snap": []})
        orig[2](self, old, new)
    OD.add_option, OD.remove_option, OD._add_deprecation = add_option, remove_option, add_dep
    try:
        p = om.Problem(root=om.Group())
        p.root.add("p", om.IndepVarComp("x", 1.0), promotes=["*"])
        p.root.add("c", om.ExecComp("y=2.0*x"), promotes=["*"])
        g = p.root.add("g", om.Group())
        g.add("d", om.ExecComp("z=3.0*y"))
        p.root.connect("y", "g.d.y")
        nl = rng.choice([om.Newton, om.NLGaussSeidel, om.RunOnce])
        ln = rng.choice([om.ScipyGMRES, om.LinearGaussSeidel, om.DirectSolver])
        p.root.nl_solver, p.root.ln_solver = nl(), ln()
        if nl is om.Newton and rng.random() < .6:
            p.root.nl_solver.line_search = BackTracking()
        g.ln_solver = rng.choice([om.ScipyGMRES, om.LinearGaussSeidel, om.DirectSolver])()
        extra = [om.Brent()]
        D = rng.choice([om.ScipyOptimizer, om.FullFactorialDriver, om.UniformDriver, om.LatinHypercubeDriver])
        p.driver = D()
        if rng.random() < .7:
            p.driver.add_recorder(om.InMemoryRecorder())
    finally:
        OD.add_option, OD.remove_option, OD._add_deprecation = orig
    # old names that were declared without the public call
    systems = [p.root, g, p.root._subsystems["p"], p.root._subsystems["c"], g._subsystems["d"]]
    deriv = {}
    for s in systems:
        deriv[idx[id(s.deriv_options)]] = s
    kinds = ["deriv" if k + 1 in deriv else "plain" for k in range(len(ds))]
    for k, d in enumerate(ds):
        for a, b in sorted(d._deprecations.items()):
            if not any(e["op"] == "dep" and e["d"] == k + 1 and e["name"] == a for e in ev):
                ev.append({"op": "dep", "d": k + 1, "name": a, "new": b, "ok": True, "snap": []})
    sf, sc = sym.see(DEFAULT_STEP_SIZE_FD), sym.see(DEFAULT_STEP_SIZE_CS)
    pools = {}
    for e in ev:
        if e["op"] == "add":
            pools[e["d"], e["name"]] = e
    # what a driver supports is its own to change at setup
    free = [k for k in range(1, len(ds) + 1) if "uses_derivatives" not in ds[k - 1] and "active_set" not in ds[k - 1]]
    picks = rng.sample(free, min(5, len(free)))
    picks += [k for k in sorted(deriv) if k not in picks][:2]

    def universe(k):
        return sorted(set([n for (dd, n) in pools if dd == k] + list(ds[k - 1]._deprecations) + ["junk"]))
    locked = False
    for i in range(job["len"]):
        if i == job["lock"]:
            # values that a set-up may depend on are put back in place first
            for s in systems:
                for nm in ("type",):
                    s.deriv_options._options[nm]["val"]
            for s in systems:
                if s.deriv_options["type"] != "user":
                    e = {"op": "set", "d": idx[id(s.deriv_options)], "name": "type", "v": sym.see("user"), "stepfd": sf, "stepcs": sc,
                         "snap": []}
                    try:
                        s.deriv_options["type"] = "user"
                        e["ok"] = True
                    except Exception:
                        e["ok"] = False
                    ev.append(e)
            try:
                p.setup(check=False)
            except Exception:
                OD.locked = True
            ev.append({"op": "lock"})
            # dictionaries were read-only observed during setup: nothing may have changed
            ev.append({"op": "noop", "d": 1, "name": "", "ok": True, "snap": [snap(sym, ds[k - 1], k, universe(k)) for k in picks]})
            locked = True
        k = rng.choice(picks)
        d = ds[k - 1]
        if k in deriv and rng.random() < .35:
            s = deriv[k]
            nm = rng.choice(["force_fd", "step_type", "extra_check_partials_form", "form", "step_size"])
            if rng.random() < .5:
                e = {"op": "fdget", "d": k, "name": nm, "ok": True}
                try:
                    e["v"] = sym.see(s.fd_options[nm])
                except Exception as x:
                    e["v"] = {"t": "!" + type(x).__name__, "n": -1, "s": ""}
            else:
                v = {"force_fd": [True, False], "step_type": ["absolute", "relative", "bogus"],
                     "extra_check_partials_form": ["forward", "central", "bogus"], "form": ["central", "complex_step", "bogus"],
                     "step_size": [1e-3, 0.0, -1.0, "x"]}[nm]
                v = rng.choice(v)
                real, rv = {"force_fd": ("type", "fd" if v is True else "user"), "step_type": ("step_calc", v),
                            "extra_check_partials_form": ("check_form", v),
                            "form": ("form", v), "step_size": ("step_size", v)}[nm]
                if nm == "form" and v == "complex_step":
                    real, rv = "type", "cs"
                e = {"op": "set", "d": k, "name": real, "v": sym.see(rv), "stepfd": sf, "stepcs": sc}
                try:
                    s.fd_options[nm] = v
                    e["ok"] = True
                except Exception:
                    e["ok"] = False
        else:
            nm = rng.choice(universe(k))
            o = pools.get((k, nm)) or pools.get((k, d._deprecations.get(nm)))
            v = rand_val(rng)
            if o is not None and rng.random() < .75:
                c = [x[1] for x in (o["lo"], o["up"]) if x[1] is not None] + [x[1] for x in o["ch"]]
                dv = o["v"][1]
                if isinstance(dv, bool): c += [True, False, 1]
                elif isinstance(dv, int): c += [0, 1, 3, 20, -1, 2.0]
                elif isinstance(dv, float): c += [0.0, 1e-3, 2.5, -1.0, 1]
                elif isinstance(dv, str): c += ["bogus"]
                if c:
                    v = rng.choice(c)
            if o is not None and any(x[1] == v and type(x[1]) != type(v) for x in o["ch"]):
                v = "other"
            e = {"op": "set", "d": k, "name": nm, "v": sym.see(v), "stepfd": sf, "stepcs": sc}
            try:
                d[nm] = v
                e["ok"] = True
            except Exception:
                e["ok"] = False
        e["snap"] = [snap(sym, d, k, universe(k))]
        if i % 6 == 5:
            e["snap"] += [snap(sym, ds[j - 1], j, universe(j)) for j in picks if j != k]
        ev.append(e)
    return {"id": job["id"], "kind": "real", "outcome": "done", "kinds": kinds, "ev": sym.resolve(ev)}


def run_job(job):
    return run_real(job) if job["kind"] == "real" else run_plain(job)


def check_C15(chk):
    chk.mc("OptionsMC", workers=4, timeout=300)
    jobs = []
    for i in range(chk.n(300, 4000)):
        real = i % 3 == 2
        jobs.append({"id": "o%d" % i, "seed": "%d-%d" % (chk.seed, i), "kind": "real" if real else "plain",
                     "len": 25 if real else 20 + i % 20, "lock": (5 + i % 11) if i % 2 == 0 else 999})
    recs = run_impl(chk, "c_options:run_job", jobs)
    for r in recs:
        r.setdefault("ev", [{"op": "noop"}])
        r.setdefault("kinds", ["plain"])
        r.setdefault("kind", "plain")
    chk.notes["histories"] = len(recs)
    chk.notes["operations"] = sum(len(r["ev"]) for r in recs)
    chk.sample(recs[0]["ev"][:3])
    chk.validate("OptionsTrace", recs)
