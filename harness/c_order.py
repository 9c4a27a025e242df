"""C03: orders of generated groups (cyclic ones too), user orders, re-setups.  See Order.tla."""
import random
from io import StringIO
from common import run_impl

NAMES = ["a", "a1", "a11", "b", "B", "ab", "c", "z_1", "wing", "wing2"]


def run_job(job):
    from openmdao.api import Problem, Group, Component, ScipyGMRES, LinearGaussSeidel, NLGaussSeidel
    rng = random.Random(job["s"])
    log = []

    class Node(Component):
        def __init__(self, nin):
            super(Node, self).__init__()
            for k in range(nin):
                self.add_param("in%d" % k, [0.0] * (1 + k % 3))
            self.add_output("y", [0.0] * 3)
            self.used = 0

        def solve_nonlinear(self, params, unknowns, resids):
            log.append(self.pathname)
            unknowns["y"] = [sum(float(sum(params["in%d" % k])) for k in range(6)) * .01 + 1.0] * 3

    class Nest(Group):
        pass

    lngs = rng.random() < .2
    par, groups, objs = {}, [], {}
    root = Group()
    objs[""] = root

    def fill(path, depth, lo=2):
        for nm in rng.sample(NAMES, rng.randint(lo, 5 if depth == 0 else 3)):
            p = path + "." + nm if path else nm
            if depth < 2 and rng.random() < .35:
                o = Group()
                objs[path].add(nm, o)
                groups.append(p)
                par[p] = path
                objs[p] = o
                fill(p, depth + 1, 1)
            else:
                o = Node(6)
                objs[path].add(nm, o)
                par[p] = path
                objs[p] = o
    fill("", 0)
    par["#"] = "#"
    case = {"id": job["id"], "outcome": "done", "par": dict(par), "groups": groups, "lngs": lngs}
    if not lngs:
        root.ln_solver = ScipyGMRES()
        for g in groups:
            if rng.random() < .5:
                objs[g].ln_solver = ScipyGMRES()
    ev = []
    style = rng.choice(["dag", "dag", "any", "any", "dense"])

    def comps():
        return [p for p in objs if isinstance(objs[p], Node)]
    rank = {}

    def connect(n):
        cs, new = comps(), []
        for _ in range(n):
            if len(cs) < 2:
                break
            a, b = rng.sample(cs, 2)
            if style == "dag":
                ka, kb = [rank.setdefault(x, rng.random()) for x in (a, b)]
                if ka > kb:
                    a, b = b, a
            o = objs[b]
            if o.used >= 6:
                continue
            k = o.used
            o.used += 1
            size = 1 + k % 3
            g = ""
            # connect in the smallest group containing both, or in the root
            if rng.random() < .4:
                pa = a.split(".")[:-1]
                pb = b.split(".")[:-1]
                com = []
                for x, y in zip(pa, pb):
                    if x != y:
                        break
                    com.append(x)
                g = ".".join(com)
            cut = len(g) + 1 if g else 0
            objs[g].connect(a[cut:] + ".y", b[cut:] + ".in%d" % k, src_indices=None if size == 3 else list(range(size)))
            new.append([a, b])
        ev.append({"op": "connect", "edges": new})

    def order(g=None):
        g = rng.choice([""] + groups) if g is None else g
        o = objs[g]
        cut = len(g) + 1 if g else 0
        names = list(o._subsystems)
        new = names[:]
        rng.shuffle(new)
        r = rng.random()
        if r < .15 and new:
            new.pop()
        elif r < .3:
            new.insert(rng.randrange(len(new) + 1), rng.choice(new))
        elif r < .4:
            new.append("ghost")
        elif r < .5:
            new[0] = rng.choice(new + ["ghost"])
        before = o.list_order()
        try:
            o.set_order(rng.choice([list, tuple])(new))
            ok = True
        except ValueError:
            ok = False
        pre = g + "." if g else ""
        ev.append({"op": "order", "g": g, "order": [pre + x for x in new], "ok": ok, "before": [pre + x for x in before],
                   "after": [pre + x for x in o.list_order()]})

    def add():
        g = rng.choice([""] + groups)
        nm = "new%d" % len(objs)
        p = g + "." + nm if g else nm
        o = Node(6)
        try:
            objs[g].add(nm, o)
            ok = True
            objs[p] = o
        except RuntimeError:
            ok = False
        ev.append({"op": "add", "path": p, "parent": g, "ok": ok})

    p = Problem(root=root)

    def setup():
        e = {"op": "setup", "ok": True, "refused": False, "err": "", "groups": []}
        ev.append(e)
        try:
            p.setup(check=False)
        except Exception as x:
            e["ok"], e["err"] = False, type(x).__name__ + ": " + str(x)[:200]
            e["refused"] = "contains cycles" in str(x)
            return False
        for g in [""] + groups:
            pre = g + "." if g else ""
            auto, broken = objs[g].list_auto_order()
            e["groups"].append({"g": g, "order": [pre + x for x in objs[g].list_order()], "auto": [pre + x for x in auto],
                                "broken": [list(x) for x in broken], "ooo": [], "cycles": []})
        res = p.check_setup(out_stream=StringIO())
        by = {r["g"]: r for r in e["groups"]}
        for g, lst in res["out_of_order"]:
            pre = g + "." if g else ""
            by[g]["ooo"] += [[pre + v, pre + s] for v, ss in lst for s in ss]
        # the report does not name the groups of the cycles: they come in the order of the groups
        left = list(res["cycles"])
        for s in root.subgroups(recurse=True, include_self=True):
            g, pre = s.pathname, s.pathname + "." if s.pathname else ""
            if left and all(n in s._subsystems for c in left[0] for n in c) and job_cyc(g):
                by[g]["cycles"] = [[pre + n for n in c] for c in left.pop(0)]
        if left:
            by[""]["cycles"] = by[""]["cycles"] + [["left"] + [str(x) for x in left]]
        return True

    def job_cyc(g):
        """whether group g has a dependency cycle among its children (used only to attribute the unnamed report)"""
        kids = {}
        for e in ev:
            if e["op"] == "connect":
                for a, b in e["edges"]:
                    ca, cb = child(g, a), child(g, b)
                    if ca and cb and ca != cb:
                        kids.setdefault(ca, set()).add(cb)
        for n in kids:
            seen, todo = set(), list(kids[n])
            while todo:
                m = todo.pop()
                if m == n:
                    return True
                if m not in seen:
                    seen.add(m)
                    todo += kids.get(m, ())
        return False

    def child(g, c):
        pre = g + "." if g else ""
        return pre + c[len(pre):].split(".")[0] if c.startswith(pre) else ""

    def go():
        del log[:]
        p.run()
        ev.append({"op": "run", "log": list(log)})
    n = len(comps())
    connect({"dag": rng.randint(1, 2 * n), "any": rng.randint(1, 2 * n), "dense": 4 * n}[style])
    for _ in range(rng.choice([0, 0, 1, 2])):
        order()
    if setup():
        go()
    for _ in range(rng.choice([0, 1, 2])):
        for _ in range(rng.randint(1, 2)):
            rng.choice([add, order, lambda: connect(rng.randint(1, 3)), lambda: connect(rng.randint(1, 3))])()
        if setup():
            go()
    case["ev"] = ev
    return case


def cases(chk, n):
    recs = run_impl(chk, "c_order:run_job", [{"id": "o%d" % i, "s": "%s-%d" % (chk.seed, i)} for i in range(n)])
    for r in recs:
        if r["outcome"] != "done":
            r.update(par={"#": "#"}, groups=[], lngs=False, ev=[{"op": "connect", "edges": []}])
    chk.notes["order_histories"] = len(recs)
    chk.notes["order_setups"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "setup")
    chk.notes["cyclic_groups"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "setup" for g in e["groups"] if g["cycles"])
    return recs
