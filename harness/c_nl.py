"""C07 and C08: iterative nonlinear solves.

Generated systems of explicit and implicit components (polynomials, also diverging and failing ones) with possibly nested
iterative groups are solved by the real solvers.  Observed: the unknowns at the start, after every iteration, at every
try of a line search and at the end of every solve, what was raised and printed.  Residual norms and Newton directions
are recomputed from the equations; the specification decides where each solve has to stop, what it has to report and
where each step has to lead."""
import io, random, sys
from common import run_impl

C8 = [-2, -1.5, -1, -.5, .5, 1, 1.5, 2, 3]


def gen(rng):
    m = {"comps": [], "groups": []}
    nid = [0]
    m["p"] = [nid[0], nid[0] + 1]
    nid[0] += 2
    diverge = rng.random() < .12
    top = rng.choice(["", "g", "g", "g"])

    def add_group(path, depth):
        kind = rng.choice(["gs", "newton", "newton"])
        g = {"path": path, "kind": kind, "children": [], "own": [], "atol": rng.choice([0., 1e-6, 1e-6, 1e-2, .5]), "rtol": rng.choice([0., 1e-6, 1e-2, .3]),
             "utol": rng.choice([0., 1e-12, 1e-12, 1e-2, .3]), "err": rng.random() < .4}
        g["maxiter"] = rng.choice([1, 2, 3, 4, 6, 10, 20]) if kind == "gs" else rng.choice([0, 1, 2, 3, 4, 6, 10, 20])
        if kind == "gs":
            g["aitken"] = rng.random() < .35
            g["amin"], g["amax"] = rng.choice([(.25, 2.0), (.5, 1.0), (.1, 1.5)])
        else:
            g["alpha"] = rng.choice([1., 1., 1., .5, .75])
            g["sub"] = rng.random() < .6
            g["ls"] = rng.random() < .45
            g["lsmax"], g["rho"], g["c"], g["lssub"], g["lserr"] = rng.choice([0, 1, 2, 5]), rng.choice([.5, .25]), rng.choice([.5, .1, .9]), g["sub"], rng.random() < .15
        g["ln"] = rng.choice(["direct", "direct", "gmres", "assemble"])
        m["groups"].append(g)
        pre = path + "." if path else ""
        mk = {"name": pre + "mk", "kind": "mk", "ids": [nid[0]], "shape": None}
        nid[0] += 1
        m["comps"].append(mk)
        g["children"].append(mk["name"])
        n = rng.randint(1, 3)
        nested = depth < 1 and rng.random() < .35
        at = rng.randrange(n + 1) if nested else -1
        for k in range(n + 1):
            if k == at:
                g["children"].append(pre + "h")
                add_group(pre + "h", depth + 1)
            if k < n:
                shape = rng.choice([None, None, (1,), (2,), (2, 1), (1, 2)])
                size = 1 if shape in (None, (1,)) else 2
                c = {"name": pre + "c%d" % k, "kind": "ex" if kind == "gs" or rng.random() < .35 else "im", "ids": list(range(nid[0], nid[0] + size)), "shape": shape}
                nid[0] += size
                g["children"].append(c["name"])
                m["comps"].append(c)
        return g
    add_group(top, 0)
    m["n"] = nid[0]
    ids = {c["name"]: c["ids"] for c in m["comps"]}
    for c in m["comps"]:
        c["f"] = {}
        if c["kind"] == "mk":
            continue
        grp = c["name"].rsplit(".", 1)[0] if "." in c["name"] else ""
        root = top
        pool = [i for d in m["comps"] if d["kind"] != "mk" and (not root or d["name"].startswith(root + ".")) for i in d["ids"]]
        for i in c["ids"]:
            ts = [(rng.choice(C8), ())]
            if rng.random() < .5:
                ts.append((rng.choice([.5, 1, -1]), (rng.choice(m["p"]),)))
            others = [j for j in rng.sample(pool, min(len(pool), rng.randint(1, 2))) if c["kind"] == "im" or j not in c["ids"]]
            free = [j for j in pool if j not in c["ids"]] or m["p"]
            if c["kind"] == "ex":
                for j in others:
                    ts.append((rng.choice([-.25, .25, .375, -.375, .5]) if not diverge else rng.choice([-2., 2., 1.]), (j,)))
                if rng.random() < (.3 if not diverge else .8):
                    ts.append((rng.choice([.0625, -.0625]) if not diverge else 1., (rng.choice(free), rng.choice(free))))
            else:
                ts.append((rng.choice([2., 3., 4., -2.]), (i,)))
                for j in others:
                    if j != i:
                        ts.append((rng.choice([-.5, .5, .25, 1.]), (j,)))
                r = rng.random()
                if r < .3:
                    ts.append((rng.choice([.5, -.5, 1.]), (i, i)))
                elif r < .6:
                    ts.append((rng.choice([1., .5]), (i, i, i)))
            c["f"][i] = ts
        c["lo"], c["up"] = None, None
        kind = [g for g in m["groups"] if g["path"] == grp][0]["kind"]
        if kind == "newton" and rng.random() < .6:
            k = len(c["ids"])
            arr = c["shape"] is not None and rng.random() < .5
            if rng.random() < .7:
                c["lo"] = [rng.choice([-4., -2., -1., 0., .5]) for _ in range(k)] if arr else [rng.choice([-4., -2., -1., 0., .5])] * k
            if rng.random() < .7:
                c["up"] = [rng.choice([1., 2., 3., 6.]) for _ in range(k)] if arr else [rng.choice([1., 2., 3., 6.])] * k
            c["arr"] = arr
            c["pbo"] = rng.random() < .15
    find_heads(m)
    return m


def find_heads(m):
    """implicit components, and those that use a value computed after them: the others are taken to be executed whenever
    residuals are evaluated"""
    groups = {g["path"]: g for g in m["groups"]}
    order = []

    def walk(path):
        for ch in groups[path]["children"]:
            if ch in groups:
                walk(ch)
            else:
                order.append(ch)
    walk(m["groups"][0]["path"])
    pos = {n: k for k, n in enumerate(order)}
    owner = {i: c["name"] for c in m["comps"] for i in c["ids"]}
    m["heads"] = {c["name"] for c in m["comps"] if c["kind"] == "im" or any(pos[owner[v]] > pos[c["name"]] for ts in c["f"].values() for _, vs in ts for v in vs if v in owner)}


def start(rng, m):
    u = [1.0] * m["n"]
    for i in m["p"]:
        u[i] = rng.choice([-1., 0., 1., 2.])
    for c in m["comps"]:
        if c["kind"] != "mk":
            for k, i in enumerate(c["ids"]):
                u[i] = rng.choice([-4., -2., -1., 0., .5, 1., 2., 3., 8.])
                # often exactly on a bound, usually inside
                if c.get("lo") and (u[i] < c["lo"][k] or rng.random() < .15) and rng.random() < .95:
                    u[i] = c["lo"][k]
                if c.get("up") and (u[i] > c["up"][k] or rng.random() < .15) and rng.random() < .95:
                    u[i] = c["up"][k]
    return u


def val(ts, u):
    s = 0.0
    for c, vs in ts:
        p = c
        for v in vs:
            p = p * u[v]
        s = s + p
    return s


def der(ts, u, j):
    s = 0.0
    for c, vs in ts:
        for q, v in enumerate(vs):
            if v == j:
                p = c
                for q2, w in enumerate(vs):
                    if q2 != q:
                        p = p * u[w]
                s += p
    return s


class Injected(Exception):
    pass


def build(m, logs, fault):
    import numpy as np
    from openmdao.api import Problem, Group, Component, IndepVarComp, NLGaussSeidel, Newton, DirectSolver, LinearGaussSeidel, ScipyGMRES
    from openmdao.solvers.backtracking import BackTracking
    from openmdao.core.system import AnalysisError
    from openmdao.recorders.base_recorder import BaseRecorder
    owner = {}
    for c in m["comps"]:
        for k, i in enumerate(c["ids"]):
            owner[i] = (c["name"], k)
    for k, i in enumerate(m["p"]):
        owner[i] = ("p", k)
    paths = {c["name"]: c["name"] + ".y" for c in m["comps"]}
    paths["p"] = "p.v"
    stack = []

    class Poly(Component):
        def __init__(self, c):
            super(Poly, self).__init__()
            self.c = c
            self.deps = sorted({owner[v][0] for ts in c["f"].values() for _, vs in ts for v in vs if not (c["kind"] == "im" and owner[v][0] == c["name"])})
            self.calls = 0
            for d in self.deps:
                src = [x for x in m["comps"] if x["name"] == d]
                shape = src[0]["shape"] if src else (2,)
                self.add_param("i_" + d.replace(".", "_"), 0.0 if shape is None else np.zeros(shape))
            kw = {}
            for w, n in (("lo", "lower"), ("up", "upper")):
                if c.get(w):
                    kw[n] = np.array(c[w]).reshape(c["shape"]) if c["arr"] else c[w][0]
            if c.get("pbo"):
                kw["pass_by_obj"] = False
            v0 = 1.0 if c["shape"] is None else np.ones(c["shape"])
            (self.add_state if c["kind"] == "im" else self.add_output)("y", v0, **kw)
            self.resid = False

        def u(self, params, unknowns):
            u = [0.0] * m["n"]
            for d in self.deps:
                a = np.ravel(params["i_" + d.replace(".", "_")])
                for k, i in enumerate(m["p"] if d == "p" else [x for x in m["comps"] if x["name"] == d][0]["ids"]):
                    u[i] = a[k]
            if self.c["kind"] == "im":
                a = np.ravel(unknowns["y"])
                for k, i in enumerate(self.c["ids"]):
                    u[i] = a[k]
            return u

        def out(self, vec, vals):
            vec["y"] = vals[0] if self.c["shape"] is None else np.array(vals).reshape(self.c["shape"])

        def solve_nonlinear(self, params, unknowns, resids):
            self.calls += 1
            if fault and fault[0] == self.c["name"] and fault[1] == "solve" and self.calls == fault[2]:
                raise (AnalysisError if fault[3] else Injected)("planned failure")
            if self.c["kind"] == "mk":
                if not self.resid and stack and stack[-1]["path"] == self.c["name"].rpartition(".")[0]:
                    stack[-1]["starts"].append(snap())
                unknowns["y"] = 1.0
            elif self.c["kind"] == "ex":
                u = self.u(params, unknowns)
                self.out(unknowns, [val(self.c["f"][i], u) for i in self.c["ids"]])

        def apply_nonlinear(self, params, unknowns, resids):
            if self.c["kind"] == "im":
                u = self.u(params, unknowns)
                self.out(resids, [val(self.c["f"][i], u) for i in self.c["ids"]])
            else:
                self.resid = True
                try:
                    super(Poly, self).apply_nonlinear(params, unknowns, resids)
                finally:
                    self.resid = False

        def linearize(self, params, unknowns, resids):
            self.calls += 1
            if fault and fault[0] == self.c["name"] and fault[1] == "linearize" and self.calls >= fault[2]:
                raise (AnalysisError if fault[3] else Injected)("planned failure")
            if self.c["kind"] == "mk":
                if stack and stack[-1]["path"] == self.c["name"].rpartition(".")[0]:
                    stack[-1]["lin"].append(snap())
                    stack[-1]["recs"].append([])
                return {}
            u = self.u(params, unknowns)
            J = {}
            for d in self.deps + ([self.c["name"]] if self.c["kind"] == "im" else []):
                js = m["p"] if d == "p" else [x for x in m["comps"] if x["name"] == d][0]["ids"]
                J["y", "y" if d == self.c["name"] and self.c["kind"] == "im" else "i_" + d.replace(".", "_")] = np.array([[der(self.c["f"][i], u, j) for j in js] for i in self.c["ids"]])
            return J

    class Rec(BaseRecorder):
        def startup(self, group):
            self._filtered[group.pathname] = {"p": [], "u": [], "r": []}

        def record_metadata(self, group):
            pass

        def record_iteration(self, params, unknowns, resids, metadata):
            e = (list(metadata["coord"][-1]), snap())
            top = stack[-1]
            if top["kind"] == "gs":
                top["its"].append(e)
            elif top["recs"]:
                top["recs"][-1].append(e)
            else:
                top["stray"] = True

        def record_derivatives(self, *a):
            pass

        def close(self):
            pass
    prob = Problem(root=Group())
    root = prob.root
    systems = {"": root}
    root.add("p", IndepVarComp("v", np.zeros(2)))
    objs = {}
    for g in m["groups"]:
        if g["path"]:
            par, _, nm = g["path"].rpartition(".")
            systems[g["path"]] = systems[par].add(nm, Group())
        for ch in g["children"]:
            c = [x for x in m["comps"] if x["name"] == ch]
            if c:
                objs[ch] = systems[g["path"]].add(ch.rpartition(".")[2], Poly(c[0]))
    for g in m["groups"]:
        s = systems[g["path"]]
        s.set_order((["p"] if g["path"] == "" else []) + [ch.rpartition(".")[2] for ch in g["children"]])
        if g["kind"] == "gs":
            sol = NLGaussSeidel()
            sol.options["use_aitken"] = g["aitken"]
            sol.options["aitken_alpha_min"], sol.options["aitken_alpha_max"] = g["amin"], g["amax"]
        else:
            sol = Newton()
            sol.options["alpha"] = g["alpha"]
            sol.options["solve_subsystems"] = g["sub"]
            if g["ls"]:
                sol.line_search = BackTracking()
                o = sol.line_search.options
                o["maxiter"], o["rho"], o["c"], o["solve_subsystems"], o["err_on_maxiter"] = g["lsmax"], g["rho"], g["c"], g["lssub"], g["lserr"]
        for o in ("atol", "rtol", "utol", "maxiter"):
            sol.options[o] = g[o]
        sol.options["err_on_maxiter"] = g["err"]
        s.nl_solver = sol
        s.ln_solver = ScipyGMRES() if g["ln"] == "gmres" else DirectSolver()
        if g["ln"] == "assemble":
            s.ln_solver.options["jacobian_method"] = "assemble"
        elif g["ln"] == "gmres":
            s.ln_solver.options["atol"], s.ln_solver.options["maxiter"] = 1e-14, 1000
        sol.add_recorder(Rec())
    if "" not in [g["path"] for g in m["groups"]]:
        root.ln_solver = LinearGaussSeidel()
    for name, o in objs.items():
        for d in o.deps:
            root.connect(paths[d], name + ".i_" + d.replace(".", "_"))

    def snap():
        u = [0.0] * m["n"]
        for i, (n, k) in owner.items():
            u[i] = float(np.ravel(prob[paths[n]])[k])
        return u

    def put(u):
        for c in m["comps"]:
            a = [u[i] for i in c["ids"]]
            prob[paths[c["name"]]] = a[0] if c["shape"] is None else np.array(a).reshape(c["shape"])
        prob["p.v"] = np.array([u[i] for i in m["p"]])
    prob.setup(check=False)
    for g in m["groups"]:
        s = systems[g["path"]]

        def wrap(g, orig, s=s):
            def solve(*a, **k):
                L = {"path": g["path"], "kind": g["kind"], "starts": [], "lin": [], "recs": [], "its": [], "start": snap(), "raised": False, "cut": False, "said": False}
                old, sys.stdout = sys.stdout, io.StringIO()
                stack.append(L)
                try:
                    return orig(*a, **k)
                except Exception as e:
                    L["exc"] = e
                    msg = str(e)
                    own = isinstance(e, AnalysisError) and not getattr(e, "_seen_by_harness", False) and "planned failure" not in msg and "BackTracking" not in msg
                    L["raised"] = own
                    L["cut"] = not own
                    try:
                        e._seen_by_harness = True
                    except Exception:
                        pass
                    raise
                finally:
                    stack.pop()
                    txt = sys.stdout.getvalue()
                    sys.stdout = old
                    L["said"] = any("FAILED" in l and s.nl_solver.print_name in l for l in txt.splitlines())
                    L["end"] = snap()
                    logs.append(L)
            return solve
        s.nl_solver.solve = wrap(g, s.nl_solver.solve)

    def settings():
        r = {}
        for s in root.subsystems(recurse=True, include_self=True):
            for nm, ob in (("deriv", getattr(s, "deriv_options", None)), ("nl", getattr(getattr(s, "nl_solver", None), "options", None)),
                           ("ln", getattr(getattr(s, "ln_solver", None), "options", None)),
                           ("ls", getattr(getattr(getattr(s, "nl_solver", None), "line_search", None), "options", None))):
                if ob is not None:
                    r[s.pathname + ":" + nm] = [sorted((k, repr(v)) for k, v in ob.items()), bool(getattr(ob, "locked", False))]
        return r
    return prob, put, snap, settings, systems


def cmp(a, b, exact):
    if a != a or b != b:
        return "gt"
    if a == b:
        return "le" if exact or a == 0 else "near"
    if abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
        return "near"
    return "le" if a <= b else "gt"


def fx(x, s=10000):
    return int(round(x * s)) if x == x and abs(x) < 9e4 else 10 ** 9


def judge(m, L):
    """the facts about one solve"""
    import numpy as np
    g = [x for x in m["groups"] if x["path"] == L["path"]][0]
    comps = [c for c in m["comps"] if not g["path"] or c["name"].startswith(g["path"] + ".")]
    ids = [i for c in comps for i in c["ids"]]

    heads = m["heads"]

    def resid(u):
        r = []
        for c in comps:
            for i in c["ids"]:
                if c["name"] not in heads:
                    r.append(0.0)
                elif c["kind"] == "ex":
                    r.append(val(c["f"][i], u) - u[i])
                else:
                    r.append(val(c["f"][i], u))
        return np.array(r)
    norm = lambda v: float(np.linalg.norm(v))
    few = lambda v: np.count_nonzero(v) <= 1
    dif = lambda a, b: np.array([a[i] - b[i] for i in ids])

    def fact(u, base, prev, gs):
        r = resid(u)
        n = norm(r)
        with np.errstate(all="ignore"):
            q = n / base if base else (0.0 if n == 0 else float("inf"))
        f = {"n": cmp(n, g["atol"], few(r)), "q": "gt" if not np.isfinite(base) or base == 0 else cmp(q, g["rtol"], n == base), "s": "gt", "nan": not n == n or (n == float("inf") and not np.isfinite(base))}
        if prev is not None:
            d = dif(u, prev)
            f["s"] = cmp(norm(d), g["utol"], few(d))
        return f
    e = {"op": "solve", "sys": g["path"], "kind": g["kind"], "max": g["maxiter"], "err": g["err"], "raised": L["raised"], "said": L["said"], "cut": L["cut"],
         "once": False, "first": 1, "fs": [], "rel": [], "steps": [], "ls": bool(g.get("ls")), "lsmax": g.get("lsmax", 0), "amin": 0, "amax": 0, "lo": [], "up": []}
    if g["kind"] == "gs":
        its = L["its"]
        if [x[0] for x in its] != [[k + 1] for k in range(len(its))]:
            e["fs"] = []
            return e
        for k, (_, u) in enumerate(its):
            if k == 0:
                base = norm(resid(u))
                base = base if base > g["atol"] else 1.0
            prev = L["starts"][k] if k and k < len(L["starts"]) else None
            e["fs"].append(fact(u, base, prev, True))
        e["once"] = g["maxiter"] == 1
        e["amin"], e["amax"] = int(g["amin"] * 1000), int(g["amax"] * 1000)
        if len(L["starts"]) != len(its) and not L["cut"]:
            e["fs"] = []
        a_prev, d1 = 1.0, None
        for k in range(1, len(its) - 1):
            s0, s1 = L["starts"][k], L["starts"][k + 1]
            dn = dif(its[k][1], s0)
            mv = dif(s1, s0)
            j = int(np.argmax(np.abs(dn))) if np.all(np.isfinite(dn)) and np.all(np.isfinite(mv)) else -1
            if j < 0 or abs(dn[j]) < 1e-9 or abs(dn[j]) > 1e9:
                break
            a = mv[j] / dn[j]
            if norm(mv - a * dn) > 1e-7 * (1 + norm(dn)):
                a = 50.
            if not g["aitken"] or d1 is None:
                t = 1.0
                e["rel"].append({"prev": 1000, "t": 1000, "a": fx(a, 1000)})
                if g["amin"] > 1 or g["amax"] < 1:
                    e["rel"].pop()
            else:
                dd = dn - d1
                if norm(dd) < 1e-9:
                    break
                t = 1 - float(np.dot(dd, dn)) / norm(dd) ** 2
                e["rel"].append({"prev": fx(a_prev, 1000), "t": max(-50000, min(50000, fx(t, 1000))), "a": fx(a, 1000)})
            if abs(t) > 45:
                e["rel"].pop()
                break
            if d1 is not None:
                a_prev = a
            d1 = dn
        return e
    # Newton
    e["first"] = 0
    lin = L["lin"]
    pts = lin + ([] if L["cut"] else [L["end"]])
    base = norm(resid(pts[0])) if pts else 0.0
    for k, u in enumerate(pts):
        e["fs"].append(fact(u, base, pts[k - 1] if k else None, False))
    if not pts:
        e["fs"] = [{"n": "gt", "q": "gt", "s": "gt", "nan": False}]
    direct = set(i for c in comps if c["kind"] == "im" and c["name"].rpartition(".")[0] == g["path"] for i in c["ids"])
    e["lo"], e["up"] = [], []
    for c in comps:
        for k, i in enumerate(c["ids"]):
            for w in ("lo", "up"):
                b = c.get(w)
                e[w].append({"h": bool(b), "b": fx(b[k]) if b else 0})
    subs = g["sub"]
    # without a run of the subsystems after a step, derivatives of nonlinear explicit components stem from earlier inputs
    stale = any(not h.get("sub", True) and (not g["path"] or (h["path"] + ".").startswith(g["path"] + ".")) for h in m["groups"]) and \
        any(c["name"] not in heads and len(vs) > 1 for c in comps for ts in c["f"].values() for _, vs in ts)
    for k, u in enumerate(lin):
        recs = L["recs"][k]
        bn = norm(resid(u))
        st = {"base": [fx(u[i]) for i in ids], "d": [0] * len(ids), "known": [False] * len(ids), "own": [], "u": [], "an": [], "ad": [], "a": [], "nums": [], "cut": L["cut"] and k == len(lin) - 1, "kept": True}
        J = np.zeros((len(ids), len(ids)))
        r = 0
        for c in comps:
            for i in c["ids"]:
                for q, j in enumerate(ids):
                    J[r, q] = der(c["f"][i], u, j) if c["kind"] != "mk" else 0.0
                    if c["kind"] != "im" and i == j:
                        J[r, q] -= 1.0
                r += 1
        ok = bool(np.all(np.isfinite(J)) and np.isfinite(bn) and np.linalg.cond(J) < 1e6)
        d = np.linalg.solve(J, -resid(u)) if ok else np.zeros(len(ids))
        # a direction is only defined by a regular jacobian
        st["own"] = [ok and ((i in direct) or not subs) for i in ids]
        big = lambda x: abs(x) > 1000
        ok = ok and not any(big(x) for x in d)
        if ok:
            st["d"] = [fx(x) for x in d]
        al = g["alpha"]
        den = 4
        for t, (co, v) in enumerate(recs):
            with np.errstate(all="ignore"):
                f = norm(resid(v))
                dec, need = bn - f, g["c"] * al * bn
            st["a"].append("lt" if dec != dec else {"le": "lt", "near": "near", "gt": "ge"}[cmp(dec, need, False)] if dec != need else "ge")
            st["u"].append([fx(v[i]) for i in ids])
            st["an"].append(int(round(al * 4 * 4 ** t if g.get("rho") == .25 else al * 4 * 2 ** t)))
            st["ad"].append(4 * (4 if g.get("rho") == .25 else 2) ** t)
            st["nums"].append(co)
            al *= g["rho"]
        if stale:
            st["known"] = [False] * len(ids)
        else:
            st["known"] = [bool(ok and o and not big(u[i])) for o, i in zip(st["own"], ids)]
        if recs and not st["cut"]:
            nxt = lin[k + 1] if k + 1 < len(lin) else L["end"]
            same = lambda a, b: a == b or (a != a and b != b)
            st["kept"] = all(same(recs[-1][1][i], nxt[i]) for i in ids)
        if not recs and not st["cut"]:
            st["nums"] = [[-1, -1]]
        if L.get("stray"):
            st["nums"] = [[-1, -1]]
        e["steps"].append(st)
    return e


def run_job(job):
    import numpy as np, warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    rng = random.Random(job["s"])
    m = gen(rng)
    fault = None
    if rng.random() < .3:
        c = rng.choice(m["comps"])
        fault = [c["name"], rng.choice(["solve", "linearize"]), rng.randint(1, 6), rng.random() < .5]
    s0, s1 = start(rng, m), start(rng, m)
    ev = []

    def go(prob, settings, put, s, logs):
        put(s)
        del logs[:]
        before = settings()
        out = "ok"
        try:
            prob.run()
        except Exception as exc:
            if type(exc).__name__ not in ("AnalysisError", "Injected", "FloatingPointError", "LinAlgError") and "infs or NaNs" not in str(exc):
                raise
            out = type(exc).__name__
        after = settings()
        ev.append({"op": "kept", "same": before == after, "what": [] if before == after else [k for k in before if before[k] != after.get(k)]})
        return out
    logs = []
    prob, put, snap, settings, systems = build(m, logs, fault)
    o0 = go(prob, settings, put, s0, logs)
    ev += [judge(m, L) for L in logs]
    if fault:
        fault[2] = -1
        if fault[1] == "linearize":
            fault[2] = 10 ** 9
    o1 = go(prob, settings, put, s1, logs)
    ev += [judge(m, L) for L in logs]
    trace1 = repr([[L["path"], L["its"], L["lin"], L["recs"], L["end"], L["raised"], L["said"]] for L in logs])
    logs2 = []
    prob2, put2, snap2, settings2, _ = build(m, logs2, None)
    o2 = go(prob2, settings2, put2, s1, logs2)
    trace2 = repr([[L["path"], L["its"], L["lin"], L["recs"], L["end"], L["raised"], L["said"]] for L in logs2])
    ev.append({"op": "same", "same": bool(o1 == o2 and trace1 == trace2), "what": [o0, o1, o2, [g["kind"] + ("+aitken" if g.get("aitken") else "") for g in m["groups"]]]})
    return {"id": job["id"], "key": "bounded-newton", "outcome": "done", "groups": m["groups"], "fault": fault or [], "ev": ev}


def records(chk, n):
    jobs = [{"id": "n%d" % i, "s": "%s-%d" % (chk.seed, i)} for i in range(n)]
    recs = run_impl(chk, "c_nl:run_job", jobs)
    for r in recs:
        if r["outcome"] != "done":
            r.update(groups=[], ev=[{"op": "none"}])
    sv = [e for r in recs for e in r["ev"] if e["op"] == "solve"]
    chk.notes["solves"] = len(sv)
    chk.notes["iterates"] = sum(len(e["fs"]) for e in sv)
    chk.notes["newton_steps"] = sum(len(e["steps"]) for e in sv)
    chk.notes["searches"] = sum(1 for e in sv for s in e["steps"] if len(s["u"]) > 1)
    chk.notes["raised"] = sum(1 for e in sv if e["raised"])
    chk.notes["cut"] = sum(1 for e in sv if e["cut"])
    chk.sample(recs[0])
    return recs


def check_C07(chk):
    chk.mc("NLSolveMC", workers=4, timeout=300)
    chk.validate("NLSolveTrace", records(chk, chk.n(400, 6000)), relevant=lambda c: not c.startswith("C08"))


def check_C08(chk):
    chk.mc("NLSolveMC", workers=4, timeout=300)
    chk.validate("NLSolveTrace", records(chk, chk.n(400, 6000)), relevant=lambda c: not c.startswith("C07:") or c == "C07:no-outcome")
