"""Seeded generator of model declarations (JSON).  It is only a generator: what a declaration means, and whether it is
well formed, is decided by the specification."""
import random
from fractions import Fraction as F

UNITS = {  # name: (family, factor to base, offset added before scaling)
    "m": ("len", F(1), F(0)), "cm": ("len", F(1, 100), F(0)), "km": ("len", F(1000), F(0)), "mm": ("len", F(1, 1000), F(0)),
    "ft": ("len2", F(12), F(0)), "inch": ("len2", F(1), F(0)),
    "s": ("time", F(1), F(0)), "min": ("time", F(60), F(0)), "h": ("time", F(3600), F(0)),
    "degK": ("temp", F(1), F(0)), "degC": ("temp", F(1), F(5463, 20)), "degF": ("temp", F(5, 9), F(45967, 100)),
    "degR": ("temp", F(5, 9), F(0)),
}
# inch/ft and m are one dimension, so cross connections between 'len' and 'len2' are never generated
FAMS = {}
for u, (f, a, b) in UNITS.items():
    FAMS.setdefault(f, []).append(u)
NEAR = {"m": ["cm"], "cm": ["m", "mm"], "km": ["m"], "mm": ["cm"], "ft": ["inch"], "inch": ["ft"], "s": ["min"],
        "min": ["s", "h"], "h": ["min"], "degK": ["degC", "degR"], "degC": ["degK", "degF"], "degF": ["degC", "degR"],
        "degR": ["degK", "degF"]}


def q(x):
    x = F(x)
    return [x.numerator, x.denominator]


class Bad(Exception):
    pass


LIMN, LIMD = 60000, 40000


def guard(x):
    if abs(x.numerator) > LIMN or x.denominator > LIMD:
        raise Bad()
    return x


def gen_idx(r, n):
    """source entries: contiguous, strided, reversed, repeated, or regular but for one entry"""
    kind = r.random()
    if kind < .2:
        k = r.randint(1, min(3, n))
        a = r.randint(0, n - k)
        return list(range(a, a + k))
    if kind < .35:
        return list(range(n))[::-1][:r.randint(1, 3)]
    if kind < .65:
        st = r.choice([1, 1, 2, 3])
        x = list(range(r.randint(0, max(0, n - 1 - st)), n, st))[:5]
        if r.random() < .7 and len(x) > 1:
            x[r.randrange(len(x)) if len(x) < 4 else r.randrange(2, len(x) - 1)] = r.randrange(n)
        return x
    if kind < .8:
        return sorted(r.randrange(n) for _ in range(r.randint(1, 4)))
    return [r.randrange(n) for _ in range(r.randint(1, min(4, n + 1)))]


class Gen(object):
    def __init__(self, rng, **o):
        self.r = rng
        self.o = o
        self.subs, self.vars, self.conns = [], [], []
        self.prom = {}

    # ---- structure
    def parent(self, p):
        return p.rpartition(".")[0]

    def chain(self, p):
        """systems from p up to (excluding) the root"""
        out = []
        while p:
            out.append(p)
            p = self.parent(p)
        return out

    def lca(self, p, q_):
        a = self.chain(self.parent(p)) + [""]
        b = set(self.chain(self.parent(q_)) + [""])
        for x in a:
            if x in b:
                return x

    def newsub(self, parent, kind, base):
        used = {s["name"] for s in self.subs if s["parent"] == parent}
        k, n = 1, base
        while n in used:
            k += 1
            n = base + str(k)
        path = parent + "." + n if parent else n
        s = {"path": path, "name": n, "parent": parent, "kind": kind, "prom": []}
        self.subs.append(s)
        return s

    def addvar(self, comp, name, io, shape, unit=""):
        used = {v["name"] for v in self.vars if v["comp"] == comp}
        n, k = name, 1
        while n in used:
            k += 1
            n = name + str(k)
        sc = shape is None
        sh = [1] if sc else list(shape)
        size = 1
        for d in sh:
            size *= d
        fam, f, o = UNITS[unit] if unit else ("", F(1), F(0))
        self.vars.append({"comp": comp, "name": n, "io": io, "sc": sc, "sized": True, "shape": sh, "size": size,
                          "fam": fam, "unit": unit, "f": q(f), "o": q(o),
                          "val": [q(self.r.choice([-2, -1, 0, 1, 2, 3, F(1, 2), F(3, 2)])) for _ in range(size)]})
        return len(self.vars)

    def promote_up(self, comp, name, top):
        """promote name from comp up to the group top"""
        p = comp
        while p != top:
            self.prom.setdefault(p, [])
            if not any(glob(x, name) for x in self.prom[p]):
                self.prom[p].append(name)
            p = self.parent(p)

    def name_at(self, v, g):
        v = self.vars[v - 1]
        p, n = v["comp"], v["name"]
        while p != g:
            if not any(glob(x, n) for x in self.prom.get(p, [])):
                n = p.rpartition(".")[2] + "." + n
            p = self.parent(p)
        return n

    def make(self):
        r, o = self.r, self.o
        groups = [""]
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            par = r.choice([g for g in groups if g.count(".") < 2])
            groups.append(self.newsub(par, "group", r.choice(["g", "g", "sub", "grp"]))["path"])
        ncomp = r.randint(2, o.get("ncomp", 5))
        nind = r.choice([1, 1, 2])
        order = []
        for k in range(nind):
            order.append(self.newsub(r.choice(groups), "indep", r.choice(["p", "src", "ind"])))
        for k in range(ncomp):
            order.append(self.newsub(r.choice(groups), "comp", r.choice(["c", "d", "comp", "c"])))
        used_groups = set()
        for s in order:
            used_groups.update(self.chain(s["parent"]))
        self.subs = [s for s in self.subs if s["kind"] != "group" or s["path"] in used_groups]
        outs = []          # output vars in dependency order
        self.intent = {}   # input -> (src, idx) | ("share", other) | None
        uq = [0]
        expl = []
        self.rank = {}
        for k, s in enumerate(order):
            self.rank[s["path"]] = k
            myin = []
            if s["kind"] != "indep":
                for _ in range(r.randint(1, 3)):
                    myin.append(self.newinput(s["path"], outs, expl))
            myout = []
            for _ in range(r.choice([1, 1, 2])):
                uq[0] += 1
                unit = r.choice(list(UNITS)) if r.random() < o.get("punit", 0.35) else ""
                nm = r.choice(["y", "z", "out"]) + str(uq[0]) if r.random() < 0.6 else r.choice(["y", "x", "z"])
                shape = self.shape()
                myout.append(self.addvar(s["path"], nm, "out", shape, unit))
            outs.extend(myout)
        self.feedback(order, outs, expl)
        # extra promotions
        for s in self.subs:
            if r.random() < o.get("pextra", 0.08):
                cand = [v for v in range(1, len(self.vars) + 1) if (self.vars[v - 1]["comp"] + ".").startswith(s["path"] + ".")]
                if cand:
                    n = self.name_at(r.choice(cand), s["path"])
                    pat = r.choice([n, n, n[:1] + "*", "*" if r.random() < .3 else n, n[:-1] + "?" if len(n) > 1 else n])
                    self.prom.setdefault(s["path"], []).append(pat)
        # wildcards instead of some literal promotions
        for p, l in self.prom.items():
            for i, n in enumerate(l):
                if r.random() < o.get("pwild", 0.12) and "*" not in n and len(n) > 1:
                    l[i] = n[:-1] + r.choice(["?", "*"])
        self.conns = []
        for src, tgt, idx, has in expl:
            g = self.lca(self.vars[src - 1]["comp"], self.vars[tgt - 1]["comp"])
            anc = self.chain(g) + [""]
            if r.random() < 0.25:
                g = r.choice(anc)
            c = {"grp": g, "src": self.name_at(src, g), "tgts": [self.name_at(tgt, g)], "idx": idx, "has": has,
                 "as": r.choice(["list", "arr"]), "sv": src, "tv": [tgt]}
            for d in self.conns:
                if d["grp"] == g and d["src"] == c["src"] and d["has"] == has and d["idx"] == idx and r.random() < .5:
                    if c["tgts"][0] not in d["tgts"]:
                        d["tgts"].append(c["tgts"][0])
                    d["tv"].append(tgt)
                    break
            else:
                self.conns.append(c)
        for s in self.subs:
            s["prom"] = self.prom.get(s["path"], [])
        r.shuffle(self.conns)
        r.shuffle(self.subs)
        self.subs.sort(key=lambda s: s["path"].count(".") if s["kind"] == "group" else 9)
        self.functions()
        m = {"subs": self.subs, "vars": self.vars, "conns": self.conns, "fn": self.fn, "order": []}
        return m

    def feedback(self, order, outs, expl):
        """connections against the order of generation (see CycGen)"""

    def shape(self):
        x = self.r.random()
        if x < 0.45:
            return None
        if x < 0.85:
            return [self.r.choice([1, 2, 2, 3, 3, 4, 5])]
        return self.r.choice([[2, 2], [1, 3], [2, 1], [3, 2]])

    def tgt_unit(self, u):
        if not u:
            return self.r.choice(["", "", "", self.r.choice(list(UNITS))])
        x = self.r.random()
        if x < 0.6:
            return self.r.choice(NEAR[u])
        return u if x < 0.85 else ""

    def newinput(self, comp, outs, expl):
        r = self.r
        ins = [v for v in range(1, len(self.vars) + 1) if self.vars[v - 1]["io"] == "in"]
        x = r.random()
        if outs and x < self.o.get("psrc", 0.8):
            src = r.choice(outs[-4:])
            sv = self.vars[src - 1]
            if sv["comp"] == comp:
                return self.newinput(comp, [], expl)
            has, idx, shape = False, [], (None if sv["sc"] else sv["shape"])
            style = r.random()
            if not sv["sc"] and r.random() < 0.45:
                style = 1.0
                has = True
                idx = gen_idx(r, sv["size"])
                k = len(idx)
                shape = None if k == 1 and r.random() < .6 else ([2, 1] if k == 2 and r.random() < .2 else [k])
                if k == sv["size"] and r.random() < .5 and len(sv["shape"]) > 1:
                    shape = sv["shape"]
            unit = self.tgt_unit(sv["unit"])
            if style < 0.45:   # implicit: same promoted name
                top = self.lca(sv["comp"], comp)
                if not any(v["comp"] == comp and v["name"] == sv["name"] for v in self.vars):
                    t = self.addvar(comp, sv["name"], "in", shape, unit)
                    self.promote_up(sv["comp"], sv["name"], top)
                    self.promote_up(comp, sv["name"], top)
                    self.intent[t] = (src, None)
                    self.vars[t - 1]["sized"] = r.random() > 0.08
                    return t
            t = self.addvar(comp, r.choice(["x", "x", "a", "b", "w", "in"]), "in", shape, unit)
            if r.random() < 0.08 and not (has and sv["sc"]):
                v = self.vars[t - 1]
                v["sized"], v["sc"] = False, False if has else sv["sc"]
                v["shape"] = [len(idx)] if has else sv["shape"]
                v["size"] = len(idx) if has else sv["size"]
                v["val"] = (v["val"] * v["size"])[:v["size"]]
            self.intent[t] = (src, idx if has else None)
            expl.append((src, t, idx, has))
            return t
        if ins and x < 0.92:   # share with another input
            other = r.choice(ins)
            ov = self.vars[other - 1]
            if ov["comp"] != comp:
                shape = None if ov["sc"] else ov["shape"]
                if r.random() < .5:
                    if not any(v["comp"] == comp and v["name"] == ov["name"] for v in self.vars):
                        t = self.addvar(comp, ov["name"], "in", shape, ov["unit"])
                        top = self.lca(ov["comp"], comp)
                        self.promote_up(ov["comp"], ov["name"], top)
                        self.promote_up(comp, ov["name"], top)
                        self.vars[t - 1]["val"] = list(ov["val"])
                        self.intent[t] = ("share", other)
                        return t
                else:
                    has = not ov["sc"] and r.random() < .3
                    idx = []
                    if has:
                        idx = [r.randrange(ov["size"]) for _ in range(r.randint(1, 2))]
                        shape = [len(idx)]
                    t = self.addvar(comp, r.choice(["x", "a", "b"]), "in", shape, ov["unit"])
                    if not has:
                        self.vars[t - 1]["val"] = list(ov["val"])
                    expl.append((other, t, idx, has))
                    self.intent[t] = ("share", other) if not has else ("share", other, idx)
                    return t
        t = self.addvar(comp, r.choice(["x", "a", "b", "w"]), "in", self.shape(),
                        r.choice(list(UNITS)) if r.random() < .2 else "")
        self.intent[t] = None
        return t

    def functions(self):
        r = self.r
        self.fn = []
        for k, v in enumerate(self.vars):
            if v["io"] == "in" or any(s["path"] == v["comp"] and s["kind"] == "indep" for s in self.subs):
                self.fn.append([])
                continue
            ins = [i + 1 for i, w in enumerate(self.vars) if w["comp"] == v["comp"] and w["io"] == "in"]
            ent = [(i, e + 1) for i in ins for e in range(self.vars[i - 1]["size"])]
            rows = []
            for _ in range(v["size"]):
                ts = []
                for i in ins:
                    n = self.vars[i - 1]["size"]
                    for _ in range(1 if r.random() < .75 else 2):
                        ts.append({"c": q(r.choice([1, 1, 2, -1, -2, 3, F(1, 2), F(-1, 2)])), "v": [[i, r.randint(1, n)]]})
                if r.random() < self.o.get("pquad", 0.3):
                    a, b = r.choice(ent), r.choice(ent)
                    ts.append({"c": q(r.choice([1, -1, F(1, 2)])), "v": [list(a), list(b)]})
                if r.random() < .5:
                    ts.append({"c": q(r.choice([1, 2, -1])), "v": []})
                rows.append(ts)
            self.fn.append(rows)


def dotted(g, m):
    """a name promoted from inside a group as 'c.x' that is also the name of the x of a neighbour c"""
    groups = [""] + [s["path"] for s in m["subs"] if s["kind"] == "group"]
    for G in groups:
        seen = {}
        for i, v in enumerate(m["vars"]):
            if G == "" or v["comp"].startswith(G + "."):
                n, p = g.name_at(i + 1, G), v["comp"]
                while g.parent(p) != G:
                    p = g.parent(p)
                if "." in n and seen.setdefault(n, p) != p:
                    return True
    return False


def glob(p, s):
    import fnmatch
    return fnmatch.fnmatchcase(s, p)


def mutate(rng, g, m):
    """one or two defects (or harmless-looking edits) in an otherwise sensible declaration"""
    vs, cs = m["vars"], m["conns"]
    ins = [v for v in vs if v["io"] == "in"]
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(list(range(14)) + [6, 6])
        if k == 0:
            rng.choice(m["subs"])["prom"].append(rng.choice(["nope", "q*", "zz?", "y.q"]))
        elif k == 1 and cs:
            c = rng.choice(cs)
            c["src"] = rng.choice([c["src"] + "x", "nope.y", c["src"].split(".")[-1], c["src"][:-1] or "q"])
        elif k == 2 and cs:
            c = rng.choice(cs)
            c["tgts"].append(rng.choice([c["tgts"][0] + "q", c["tgts"][0].split(".")[-1], c["src"]]))
        elif k == 3 and cs:
            c = rng.choice(cs)
            c["src"], c["tgts"][0] = c["tgts"][0], c["src"]
        elif k == 4 and cs:      # another source for a connected input
            c = rng.choice(cs)
            o = rng.choice([i + 1 for i, v in enumerate(vs) if v["io"] != "in" and (v["comp"] + ".").startswith(c["grp"] + "." if c["grp"] else "")] or [0])
            if o:
                cs.append(dict(c, src=g.name_at(o, c["grp"]), has=False, idx=[], tgts=list(c["tgts"])))
        elif k == 5:
            v = rng.choice(ins)
            if not v["sc"]:
                v["shape"] = rng.choice([[v["size"] + 1], [v["size"], 1], [1, v["size"]], [1]])
                v["size"] = 1
                for d in v["shape"]:
                    v["size"] *= d
                v["val"] = [[1, 1]] * v["size"]
        elif k == 6 and cs:
            l = [c for c in cs if c["has"]] or cs
            c = rng.choice(l)
            c["has"] = True
            l = list(c["idx"]) or [0]
            l[rng.randrange(len(l))] = rng.choice([-1, -1, 2, 3, 4, 5, 6, 50])
            c["idx"] = rng.choice([l, l, l, list(c["idx"]) + [0], list(c["idx"])[:-1] or [0], [-1] + list(c["idx"])[1:],
                                   list(c["idx"])[:-1] + [rng.choice([2, 3, 4, 6, 50])]])
        elif k == 7:
            v = rng.choice(vs)
            u = rng.choice(list(UNITS) + [""])
            fam, f, o = UNITS[u] if u else ("", F(1), F(0))
            if v["fam"] in ("len", "len2") and fam in ("len", "len2") and v["fam"] != fam:
                continue
            v.update(fam=fam, unit=u, f=q(f), o=q(o))
        elif k == 8:
            v = rng.choice(vs)
            if v["size"] == 1:
                v["sc"] = not v["sc"]
                v["shape"] = [1]
        elif k == 9:
            v = rng.choice(ins)
            v["val"] = [q(F(a, b) + 1) for a, b in v["val"]]
        elif k == 10:
            s = rng.choice(m["subs"])
            s["prom"].append(rng.choice(["*", "y*", "x", "y", "z"]))
        elif k == 11 and cs:
            cs.remove(rng.choice(cs))
        elif k == 12:
            v = rng.choice(ins)
            v["sized"] = False
        elif k == 13:
            s = rng.choice(m["subs"])
            if s["prom"]:
                s["prom"].pop(rng.randrange(len(s["prom"])))
    return m


def mixed_len(m):
    """models that mix the two length families would be convertible in reality: not generated"""
    return {"len", "len2"} <= {v["fam"] for v in m["vars"]}


def simulate(g, m, sets=()):
    """bounds check with exact arithmetic along the intended wiring; raises Bad when numbers would grow too big"""
    vals = {i + 1: [F(*x) for x in v["val"]] for i, v in enumerate(m["vars"])}
    for v, val in sets:
        vals[v] = [F(*x) for x in val]
    paths = sorted({v["comp"] for v in m["vars"]}, key=lambda p: g.rank[p])
    for p in paths:
        env = {}
        for i, v in enumerate(m["vars"]):
            if v["comp"] == p and v["io"] == "in":
                env[i + 1] = inval(g, m, vals, i + 1)
        for i, v in enumerate(m["vars"]):
            if v["comp"] == p and v["io"] != "in" and m["fn"][i]:
                out = []
                for ts in m["fn"][i]:
                    s = F(0)
                    for t in ts:
                        x = F(*t["c"])
                        for a, b in t["v"]:
                            x = guard(x * env[a][min(b, len(env[a])) - 1])
                        s = guard(s + x)
                    out.append(s)
                vals[i + 1] = out
    return vals


def resolve(g, m, t):
    """(source, indices) an input is intended to see, or None"""
    it = g.intent.get(t)
    if not it:
        return None
    if it[0] == "share":
        up = resolve(g, m, it[1])
        if up is None:
            return None
        src, idx = up
        if len(it) > 2:
            idx = it[2] if idx is None else [idx[k] for k in it[2]]
        return src, idx
    return it


def inval(g, m, vals, t):
    it = resolve(g, m, t)
    if not it:
        return vals[t]
    src, idx = it
    sv, tv = m["vars"][src - 1], m["vars"][t - 1]
    x = vals[src]
    x = [x[k] for k in (idx if idx is not None else range(len(x)))]
    if sv["fam"] and tv["fam"]:
        x = [guard(guard((a + F(*sv["o"])) * F(*sv["f"])) / F(*tv["f"]) - F(*tv["o"])) for a in x]
    return x


def fill_prom(g, m):
    g.prom = {s["path"]: s["prom"] for s in m["subs"]}


def gen_case(seed, mutated=False, clash=False, **o):
    k = 0
    while True:
        k += 1
        rng = random.Random("%s/%s/%d" % (seed, sorted(o.items()), k))
        g = Gen(rng, **o)
        m = g.make()
        if mixed_len(m) or (clash and not dotted(g, m)):
            continue
        fill_prom(g, m)
        ops = [{"op": "setup"}]
        try:
            simulate(g, m)
            settable = [i + 1 for i, v in enumerate(m["vars"])
                        if (v["io"] == "out" and not m["fn"][i]) or g.intent.get(i + 1, 0) is None]
            runs = 0
            sets = []
            for _ in range(rng.choice([0, 1, 2])):
                v = rng.choice(settable)
                sets.append((v, [q(rng.choice([-1, 0, 1, 2, F(1, 2), -3])) for _ in range(m["vars"][v - 1]["size"])]))
                ops.append({"op": "set", "v": v, "val": sets[-1][1]})
            simulate(g, m, sets)
            ops.append({"op": "run"})
            for _ in range(rng.choice([1, 2])):
                v = rng.choice(settable)
                sets.append((v, [q(rng.choice([-1, 0, 1, 2, F(1, 2), -3])) for _ in range(m["vars"][v - 1]["size"])]))
                ops.append({"op": "set", "v": v, "val": sets[-1][1]})
            simulate(g, m, sets)
            ops.append({"op": rng.choice(["run", "run_once"])})
        except Bad:
            continue
        if mutated:
            m = mutate(rng, g, m)
            fill_prom(g, m)
            if mixed_len(m):
                continue
            ops = [{"op": "setup"}]
        elif rng.random() < 0.3:     # user orders
            ok = {}
            for s in m["subs"]:
                ok.setdefault(s["parent"], []).append(s["name"])
            for p, l in ok.items():
                if rng.random() < .5:
                    l = list(l)
                    rng.shuffle(l)
                    m["order"].append([p, l])
        return {"m": m, "ops": ops, "g": g}


def simgrad(g, m, vals):
    """size guard for the derivative entries, forward along the intended wiring"""
    paths = sorted({v["comp"] for v in m["vars"]}, key=lambda p: g.rank[p])
    indeps = [(i + 1, k) for i, v in enumerate(m["vars"]) if v["io"] != "in" and not m["fn"][i] for k in range(v["size"])]
    D = {}
    for i, v in enumerate(m["vars"]):
        D[i + 1] = [{} for _ in range(v["size"])]
    for iv, k in indeps:
        D[iv][k][(iv, k)] = F(1)
    for p in paths:
        env = {}
        for i, v in enumerate(m["vars"]):
            if v["comp"] == p and v["io"] == "in":
                t = i + 1
                env[t] = inval(g, m, vals, t)
                it = resolve(g, m, t)
                if it:
                    src, idx = it
                    sv = m["vars"][src - 1]
                    fac = F(*sv["f"]) / F(*v["f"]) if sv["fam"] and v["fam"] else F(1)
                    for e, k in enumerate(idx if idx is not None else range(v["size"])):
                        D[t][e] = {c: guard(x * fac) for c, x in D[src][k].items()}
        for i, v in enumerate(m["vars"]):
            if v["comp"] == p and v["io"] != "in" and m["fn"][i]:
                for e, ts in enumerate(m["fn"][i]):
                    acc = {}
                    for t in ts:
                        for pos, (a, b) in enumerate(t["v"]):
                            x = F(*t["c"])
                            for pos2, (a2, b2) in enumerate(t["v"]):
                                if pos2 != pos:
                                    x *= env[a2][b2 - 1]
                            for c, y in D[a][b - 1].items():
                                acc[c] = guard(acc.get(c, F(0)) + guard(x * y))
                    D[i + 1][e] = acc
    return D


def all_indeps(m):
    return [i + 1 for i, v in enumerate(m["vars"]) if v["io"] != "in" and not m["fn"][i]]


def all_computed(m):
    return [i + 1 for i, v in enumerate(m["vars"]) if v["io"] != "in" and m["fn"][i]]


def gen_grad(seed, **o):
    """acyclic explicit models with gradient requests in both modes; exact rational derivatives"""
    k = 0
    while True:
        k += 1
        rng = random.Random("grad/%s/%s/%d" % (seed, sorted(o.items()), k))
        g = Gen(rng, **o)
        m = g.make()
        if mixed_len(m) or dotted(g, m):
            continue
        fill_prom(g, m)
        settable = [i + 1 for i, v in enumerate(m["vars"])
                    if (v["io"] == "out" and not m["fn"][i]) or g.intent.get(i + 1, 0) is None]
        ops = [{"op": "setup"}]
        sets = []
        try:
            for rep in range(2):
                if rep:
                    v = rng.choice(settable)
                    sets.append((v, [q(rng.choice([-1, 0, 1, 2, F(1, 2), -3])) for _ in range(m["vars"][v - 1]["size"])]))
                    ops.append({"op": "set", "v": v, "val": sets[-1][1]})
                vals = simulate(g, m, sets)
                simgrad(g, m, vals)
                ops.append({"op": "run"})
                of = all_computed(m)
                wrt = all_indeps(m)
                rng.shuffle(of)
                rng.shuffle(wrt)
                modes = ["fwd", "rev"] if not rep else [rng.choice(["auto", "fwd", "rev"])]
                for md in modes:
                    ops.append({"op": "grad", "mode": md, "of": of, "wrt": wrt})
        except Bad:
            continue
        lns = ["lngs", "lngs", "gmres", "direct_mvp", "direct_asm"]
        m["rootsolv"] = {"nl": "runonce", "ln": rng.choice(lns if not o.get("noasm") else lns[:4])}
        for s in m["subs"]:
            if s["kind"] == "group":
                s["solv"] = {"nl": "runonce", "ln": rng.choice(lns[:4])}
            elif s["kind"] == "comp" and m["rootsolv"]["ln"] != "direct_asm" and rng.random() < .35:
                s["kind"] = "mf"
        tame(m)
        return {"m": m, "ops": ops, "g": g}


def tame(m):
    """GMRES gives up on badly scaled matrices (a matter of numerics): not used where units bring large factors"""
    us = {x["unit"] for x in m["vars"] if x["unit"]}
    if any(UNITS[a][0] == UNITS[b][0] and UNITS[a][1] / UNITS[b][1] >= 60 for a in us for b in us):
        for s in [m["rootsolv"]] + [x["solv"] for x in m["subs"] if x["kind"] == "group" and "solv" in x]:
            if s["ln"] == "gmres":
                s["ln"] = "direct_mvp"


def gen_sub(seed, known=False, **o):
    """models with a declared driver and requests for parts of the gradient"""
    k = 0
    while True:
        k += 1
        rng = random.Random("sub/%s/%s/%d" % (seed, sorted(o.items()), k))
        lin = rng.random() < .4 and not known
        c = gen_grad("%s/%d" % (seed, k), pquad=0.0 if lin else 0.4, punit=0.2 if lin else 0.3)
        m = c["m"]
        ind, comp = all_indeps(m), all_computed(m)
        ops = [x for x in c["ops"] if x["op"] in ("setup", "set", "run")]
        ops.append({"op": "grad", "mode": rng.choice(["fwd", "rev"]), "of": comp, "wrt": ind})
        size = lambda v: m["vars"][v - 1]["size"]
        for it in range(rng.choice([1, 2])):
            kind = rng.choice("ABC")
            sc = lambda: q(rng.choice([2, 4, F(1, 2), -1, -2, F(1, 4), 5]))

            def decl(v, arrays):
                n = size(v)
                d = {"v": v, "has": False, "idx": [], "scaler": [], "adder": []}
                if n > 1 and rng.random() < .6:
                    d["has"] = True
                    d["idx"] = rng.sample(range(n), rng.randint(1, n))
                    n = len(d["idx"])
                if rng.random() < .7:
                    if arrays and n > 1 and not m["vars"][v - 1]["sc"] and rng.random() < .8:
                        d["scaler"] = [sc() for _ in range(n)]
                    else:
                        d["scaler"] = [sc()]
                if rng.random() < .3:
                    d["adder"] = [sc()]
                if d["scaler"] == []:
                    d["noscaler"] = True
                return d
            dvs = [decl(v, kind == "B" or known) for v in rng.sample(ind, rng.randint(1, len(ind)))]
            fns = []
            pool = list(comp) + ([rng.choice(ind)] if rng.random() < .25 else [])
            for j, v in enumerate(rng.sample(pool, rng.randint(1, min(4, len(pool))))):
                d = decl(v, kind == "A")
                d["kind"] = rng.choice(["obj", "con", "eq"]) if j else "obj"
                fns.append(d)
            for d in fns:      # a variable that is both design variable and response must agree on nothing special
                pass
            dset, fset = [d["v"] for d in dvs], [d["v"] for d in fns]
            copy = [i + 1 for i, v in enumerate(m["vars"]) if i + 1 in ind or (v["io"] == "in" and c["g"].intent.get(i + 1, 0) is None)]
            # relevance reduction works in the one mode it was set up for, below a root LinearGaussSeidel
            voi = rng.choice(["fwd", "rev"]) if m["rootsolv"]["ln"] == "lngs" and rng.random() < .6 and \
                not any(s["kind"] == "group" and s["solv"]["ln"].startswith("direct") for s in m["subs"]) else ""
            if voi and kind != "C":
                voi = {"A": "fwd", "B": "rev"}[kind]
            ops.append({"op": "drv", "dvs": dvs, "fns": fns, "copy": copy, "voi": voi})
            for _ in range(4):
                on = rng.choice(["drv", "drv", "drv", "plain"])
                via = rng.choice(["driver", "driver", "problem"]) if on == "drv" else "problem"
                if known:
                    on, via = "drv", "driver"
                    arr = [d for d in dvs if len(d["scaler"]) > 1]
                if on == "drv" and rng.random() < .8:
                    wp, op_ = dset, fset
                else:
                    wp, op_ = ind, comp + (ind if rng.random() < .2 else [])
                wrt = rng.sample(wp, rng.randint(1, len(wp)))
                of = rng.sample(op_, rng.randint(1, min(4, len(op_))))
                modes = {"A": ["fwd"], "B": ["rev"], "C": ["fwd", "rev", "auto"]}[kind] if via == "driver" else ["fwd", "rev", "auto"]
                if known:
                    modes = ["fwd"]
                if on == "drv" and voi:
                    modes = [voi, "auto"] if not known else ["fwd"]
                mode = rng.choice(modes + (["fd"] if lin else []))
                fmt = rng.choice(["dict", "array"])
                sp, inact = [], []
                if fmt == "dict" and rng.random() < .35 and not known:
                    sp = [[x, rng.sample(wrt, rng.randint(0, len(wrt)))] for x in of]
                if on == "drv" and rng.random() < (.5 if mode == "rev" else .25) and not known:
                    for d in fns:
                        if d["v"] in of and rng.random() < .7:
                            n = len(d["idx"]) if d["has"] else size(d["v"])
                            if n > 2 and rng.random() < .6:
                                inact.append([d["v"], rng.sample(range(1, n - 1), rng.randint(1, n - 2))])
                            else:
                                inact.append([d["v"], rng.sample(range(n), rng.randint(1, n))])
                ops.append({"op": "sub", "on": on, "via": via, "of": of, "wrt": wrt, "mode": mode, "fmt": fmt,
                            "sparsity": sp, "inact": inact, "clause": "C05:array-scaler" if known else "C05:block"})
            if known and not any(len(d["scaler"]) > 1 for d in dvs):
                break
        else:
            if lin:
                m["rootfd"] = {"type": "user", "form": rng.choice(["forward", "backward", "central"]), "step": [1, 16]}
            c["ops"] = ops
            return c


def pyquot(f, form, h):
    if form == "forward":
        return (f(h) - f(0)) / h
    if form == "backward":
        return (f(0) - f(-h)) / h
    return (f(h) - f(-h)) / (2 * h)


def fd_opts(rng, nested=True):
    return {"form": rng.choice(["forward", "backward", "central"]), "step": q(rng.choice([F(1, 2), F(1, 4), F(1, 8), F(1)])),
            "calc": rng.choice(["absolute", "absolute", "relative"])}


def polyf(ts, env):
    s = F(0)
    for t in ts:
        x = F(*t["c"])
        for a, b in t["v"]:
            x *= env[a][b - 1]
        s += x
    return s


def fd_size_ok(g, m, vals):
    """the exact difference quotients and totals stay small enough to be recognised as rationals"""
    fdof = {s["path"]: s.get("fd") for s in m["subs"]}
    paths = sorted({v["comp"] for v in m["vars"]}, key=lambda p: g.rank[p])
    D = {i + 1: [{} for _ in range(v["size"])] for i, v in enumerate(m["vars"])}
    for i, v in enumerate(m["vars"]):
        if v["io"] != "in" and not m["fn"][i]:
            for k in range(v["size"]):
                D[i + 1][k][(i + 1, k)] = F(1)
    for p in paths:
        env, fac, stored = {}, {}, {}
        for i, v in enumerate(m["vars"]):
            if v["comp"] == p and v["io"] == "in":
                t = i + 1
                env[t] = inval(g, m, vals, t)
                it = resolve(g, m, t)
                fac[t], stored[t] = F(1), list(vals[t])
                if it:
                    src, idx = it
                    sv = m["vars"][src - 1]
                    if sv["fam"] and v["fam"]:
                        fac[t] = F(*sv["f"]) / F(*v["f"])
                    ii = idx if idx is not None else range(v["size"])
                    stored[t] = [vals[src][k] for k in ii]
                    for e, k in enumerate(ii):
                        D[t][e] = {c: guard(x * fac[t]) for c, x in D[src][k].items()}
        for i, v in enumerate(m["vars"]):
            if v["comp"] == p and v["io"] != "in" and m["fn"][i]:
                for e, ts in enumerate(m["fn"][i]):
                    acc = {}
                    for (a, b) in {tuple(x) for t in ts for x in t["v"]}:
                        fd = fdof.get(p)
                        if fd and fd["type"] == "fd":
                            o = next((x for x in fd["pp"] if x["v"] == a), fd)
                            h = F(*o["step"])
                            if o["calc"] == "relative":
                                h = max(stored[a][b - 1] * h, h)
                            h = guard(h * fac[a])

                            def f(d):
                                en = dict(env)
                                en[a] = list(env[a])
                                en[a][b - 1] = en[a][b - 1] + d
                                return guard(polyf(ts, en))
                            x = guard(pyquot(f, o["form"], h))
                        else:
                            x = F(0)
                            for t in ts:
                                for pos, (a1, b1) in enumerate(t["v"]):
                                    if (a1, b1) == (a, b):
                                        y = F(*t["c"])
                                        for pos2, (a2, b2) in enumerate(t["v"]):
                                            if pos2 != pos:
                                                y *= env[a2][b2 - 1]
                                        x += y
                        for c, y in D[a][b - 1].items():
                            acc[c] = guard(acc.get(c, F(0)) + guard(x * y))
                    D[i + 1][e] = acc


def root_size_ok(g, m, sets, ind):
    base = simulate(g, m, sets)
    o = m["rootfd"]
    for x in ind:
        for k in range(m["vars"][x - 1]["size"]):
            h = F(*o["step"])
            if o["calc"] == "relative":
                h = max(base[x][k] * h, h)
            runs = {}
            for sg in (-1, 0, 1):
                v = [q(y) for y in base[x]]
                v[k] = q(base[x][k] + sg * h)
                runs[sg] = simulate(g, m, list(sets) + [(x, v)])
            for y in base:
                for e in range(len(base[y])):
                    guard(pyquot(lambda d: runs[(d > 0) - (d < 0)][y][e], o["form"], h))


def gen_fd(seed, **o):
    """gradients with finite-difference or complex-step components, groups or whole models"""
    k = 0
    while True:
        k += 1
        rng = random.Random("fd/%s/%s/%d" % (seed, sorted(o.items()), k))
        kind = o.get("kind") or rng.choice(["comp", "comp", "root", "root", "group"])
        g = Gen(rng, pquad=0.0 if kind == "group" else 0.6, punit=0.3, ncomp=4)
        m = g.make()
        if mixed_len(m) or dotted(g, m):
            continue
        fill_prom(g, m)
        ind, comp = all_indeps(m), all_computed(m)
        lns = ["lngs", "lngs", "gmres", "direct_mvp", "direct_asm"]
        m["rootsolv"] = {"nl": "runonce", "ln": rng.choice(lns)}
        m["rootfd"] = dict(fd_opts(rng), type="user", pp=[])
        groups = [s for s in m["subs"] if s["kind"] == "group"]
        comps = [s for s in m["subs"] if s["kind"] == "comp"]
        for s in m["subs"]:
            s["fd"] = {"type": "user", "pp": []}
        for s in groups:
            s["solv"] = {"nl": "runonce", "ln": rng.choice(lns[:4])}
        tame(m)
        if kind == "comp":
            for s in comps:
                t = rng.choice(["fd", "fd", "fd", "cs", "user"])
                if t == "fd":
                    s["fd"] = dict(fd_opts(rng), type="fd", pp=[])
                    for i, v in enumerate(m["vars"]):
                        if v["comp"] == s["path"] and v["io"] == "in" and rng.random() < .3 and not any(glob(pat, v["name"]) for pat in s["prom"]):
                            s["fd"]["pp"].append(dict(fd_opts(rng), v=i + 1))
                elif t == "cs":
                    s["fd"] = {"type": "cs", "form": "forward", "step": [1, 1024], "calc": "absolute", "pp": []}
        elif kind == "group":
            if not groups:
                continue
            s = rng.choice(groups)
            s["fd"] = dict(fd_opts(rng), type="fd", pp=[])
            inside = [x for x in m["subs"] if x["kind"] == "indep" and x["path"].startswith(s["path"] + ".")]
            if bool(inside) != (o.get("known") == 2):
                continue
        elif kind == "root":
            m["rootfd"]["type"] = rng.choice(["user", "fd", "cs"])
            if m["rootfd"]["type"] == "cs":
                m["rootfd"].update(step=[1, 1048576], calc="absolute")
        settable = [i + 1 for i, v in enumerate(m["vars"])
                    if (v["io"] == "out" and not m["fn"][i]) or g.intent.get(i + 1, 0) is None]
        ops = [{"op": "setup"}]
        sets = []
        total = kind == "root"
        try:
            for rep in range(2):
                if rep:
                    v = rng.choice(settable)
                    sets.append((v, [q(rng.choice([-1, 0, 1, 2, F(1, 2), -3])) for _ in range(m["vars"][v - 1]["size"])]))
                    ops.append({"op": "set", "v": v, "val": sets[-1][1]})
                vals = simulate(g, m, sets)
                simgrad(g, m, vals)
                fd_size_ok(g, m, vals)
                if total:
                    root_size_ok(g, m, sets, ind)
                ops.append({"op": "run"})
                of, wrt = list(comp), list(ind)
                rng.shuffle(of)
                rng.shuffle(wrt)
                modes = ["fd"] if total else ["fwd", "rev"]
                if total and m["rootfd"]["type"] == "cs":
                    modes = ["fd", "fwd"]
                for md in modes:
                    ops.append({"op": "grad", "mode": md, "of": of, "wrt": wrt, "cl": "C06:difference-quotient",
                                "chkin": kind == "comp" or o.get("known") == 1})
                    # analytic derivatives after finite differencing the whole model need a run first (known finding)
                    ops.append({"op": "run"})
        except Bad:
            continue
        m["topo"] = [p for p in sorted({v["comp"] for v in m["vars"]}, key=lambda p: g.rank[p])
                     if any(s["path"] == p and s["kind"] == "comp" for s in m["subs"])]
        return {"m": m, "ops": ops, "g": g, "topo": m.pop("topo"), "fdkind": kind}


class CycGen(Gen):
    """models with dependency cycles that have one solution, which every scheme of iteration reaches"""

    def feedback(self, order, outs, expl):
        r = self.r
        comps = [s["path"] for s in order if s["kind"] == "comp"]
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            srcs = [v for v in outs if self.vars[v - 1]["comp"] in comps[1:]]
            if not srcs:
                return
            src = r.choice(srcs)
            sv = self.vars[src - 1]
            comp = r.choice(comps[:comps.index(sv["comp"])])
            has, idx, shape = False, [], (None if sv["sc"] else sv["shape"])
            if not sv["sc"] and r.random() < .4:
                has, idx = True, gen_idx(r, sv["size"])
                shape = None if len(idx) == 1 and r.random() < .6 else [len(idx)]
            unit = self.tgt_unit(sv["unit"])
            if not has and r.random() < .5 and not any(v["comp"] == comp and v["name"] == sv["name"] for v in self.vars):
                top = self.lca(sv["comp"], comp)
                t = self.addvar(comp, sv["name"], "in", shape, unit)
                self.promote_up(sv["comp"], sv["name"], top)
                self.promote_up(comp, sv["name"], top)
            else:
                t = self.addvar(comp, r.choice(["f", "x", "b"]), "in", shape, unit)
                expl.append((src, t, idx, has))
            self.intent[t] = (src, idx if has else None)

    def functions(self):
        r = self.r
        kind = {s["path"]: s["kind"] for s in self.subs}
        self.fn = []
        for k, v in enumerate(self.vars):
            if v["io"] == "in" or kind[v["comp"]] == "indep":
                self.fn.append([])
                continue
            given, made = [], []
            for i, x in enumerate(self.vars):
                if x["comp"] == v["comp"] and x["io"] == "in":
                    it = resolve(self, {"vars": self.vars}, i + 1)
                    for e in range(x["size"]):
                        if it and kind[self.vars[it[0] - 1]["comp"]] != "indep":
                            sv = self.vars[it[0] - 1]
                            made.append((i + 1, e + 1, F(*sv["f"]) / F(*x["f"]) if sv["fam"] and x["fam"] else F(1)))
                        else:
                            given.append((i + 1, e + 1))
            rows = []
            for _ in range(v["size"]):
                ts = []
                for i, e, f in r.sample(made, min(len(made), r.choice([1, 2, 2]))):
                    c = r.choice([F(1, 2), F(-1, 2), F(1, 4), F(-1, 4), F(1, 3)]) / f
                    fs = [[i, e]]
                    if given and r.random() < .25:
                        fs.append(list(r.choice(given)))
                        c /= 2
                    ts.append({"c": q(c), "v": fs})
                for i, e in r.sample(given, min(len(given), r.choice([1, 1, 2]))):
                    ts.append({"c": q(r.choice([1, 2, -1, F(1, 2)])), "v": [[i, e]]})
                if given and r.random() < .2:
                    ts.append({"c": q(r.choice([1, -1, F(1, 2)])), "v": [list(r.choice(given)), list(r.choice(given))]})
                ts.append({"c": q(r.choice([1, 2, -1, 3])), "v": []})
                rows.append(ts)
            self.fn.append(rows)


def affine(g, m, vals):
    """(A, B): computed entries as functions of computed entries and of independent ones, at vals"""
    ent = [(o, e) for o in all_computed(m) for e in range(m["vars"][o - 1]["size"])]
    ind = [(o, e) for o in all_indeps(m) for e in range(m["vars"][o - 1]["size"])]
    imp = {s["path"]: s for s in m["subs"] if s["kind"] == "impl"}

    def f(y, x):
        vs = dict(vals)
        for (o, e), z in list(zip(ent, y)) + list(zip(ind, x)):
            vs[o] = list(vs[o])
            vs[o][e] = z
        out = []
        env = {i + 1: inval(g, m, vs, i + 1) for i, v in enumerate(m["vars"]) if v["io"] == "in"}
        for o, e in ent:
            env[o] = vs[o]
            s, a = F(0), F(1)
            for t in m["fn"][o - 1][e]:
                if t["v"] == [[o, e + 1]] and m["vars"][o - 1]["comp"] in imp:
                    a = -F(*t["c"])
                    continue
                z = F(*t["c"])
                for i, k in t["v"]:
                    z *= env[i][k - 1]
                s += z
            out.append(s / a)
        return out

    zero, x0 = [F(0)] * len(ent), [vals[o][e] for o, e in ind]
    b = f(zero, x0)
    cols = [[p - z for p, z in zip(f([F(int(k == j)) for k in range(len(ent))], x0), b)] for j in range(len(ent))]
    A = [[cols[j][i] for j in range(len(ent))] for i in range(len(ent))]
    return ent, ind, f, A, b, x0


def lin_solve(A, bs):
    """(I - A)^-1 applied to the columns bs, exactly"""
    n = len(A)
    M = [[(F(1) if i == j else F(0)) - A[i][j] for j in range(n)] + [b[i] for b in bs] for i in range(n)]
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            raise Bad()
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                M[i] = [x - M[i][c] * y for x, y in zip(M[i], M[c])]
    return [[M[i][n + k] for i in range(n)] for k in range(len(bs))]


NEARD = 2000


def near(x):
    if abs(x.numerator) > LIMN or x.denominator > NEARD:
        raise Bad()
    return x


def settled(g, m, sets=()):
    """the solution and its derivatives are small rationals, and iterating gets there; raises Bad otherwise"""
    vals = {i + 1: [F(*x) for x in v["val"]] for i, v in enumerate(m["vars"])}
    for v, val in sets:
        vals[v] = [F(*x) for x in val]
    ent, ind, f, A, b, x0 = affine(g, m, vals)
    n = len(ent)
    # (contraction within the cycles)
    R = reach(range(n), {(j, i) for i in range(n) for j in range(n) if A[i][j]})
    cyc = any((i, i) in R for i in range(n))
    if any(sum(abs(A[i][j]) for j in range(n) if (i, j) in R and (j, i) in R) > F(3, 4) for i in range(n)):
        raise Bad()
    if not cyc:
        raise Bad()
    y = lin_solve(A, [b])[0]
    for (o, e), z in zip(ent, y):
        vals[o] = list(vals[o])
        vals[o][e] = near(z)
    for i, v in enumerate(m["vars"]):
        if v["io"] == "in":
            for z in inval(g, m, vals, i + 1):
                near(z)
    B = []
    for k in range(len(ind)):
        up, dn = list(x0), list(x0)
        up[k] += 1
        dn[k] -= 1
        B.append([(p - q_) / 2 for p, q_ in zip(f(y, up), f(y, dn))])
    for col in lin_solve(A, B) if B else []:
        for z in col:
            near(z)
    return vals


def edges(g, m):
    """dependencies between components"""
    out = set()
    for i, v in enumerate(m["vars"]):
        if v["io"] == "in":
            it = resolve(g, m, i + 1)
            if it and m["vars"][it[0] - 1]["comp"] != v["comp"]:
                out.add((m["vars"][it[0] - 1]["comp"], v["comp"]))
    return out


def cyclic(g, m, grp):
    """do the subsystems of the group depend on each other in a cycle"""

    def child(p):
        while p and g.parent(p) != grp:
            p = g.parent(p)
        return p if p and (grp == "" or p.startswith(grp + ".")) else None

    E = {(child(a), child(b)) for a, b in edges(g, m)}
    R = reach({x for e in E for x in e}, {(a, b) for a, b in E if a and b and a != b})
    return any((x, x) in R for e in E for x in e if x)


def reach(nodes, E):
    R, nodes = set(E), list(nodes)
    for k in nodes:
        for i in nodes:
            if (i, k) in R:
                R.update((i, j) for j in nodes if (k, j) in R)
    return R


def gen_cyc(seed, **o):
    """cyclic models, iterated or solved by Newton, with states, and derivatives of their solutions in both modes"""
    k = 0
    while True:
        k += 1
        rng = random.Random("cyc/%s/%s/%d" % (seed, sorted(o.items()), k))
        g = CycGen(rng, **dict(dict(punit=.25, pextra=.04, psrc=.7, ncomp=4), **o))
        m = g.make()
        if mixed_len(m) or dotted(g, m):
            continue
        fill_prom(g, m)
        settable = [i + 1 for i, v in enumerate(m["vars"])
                    if (v["io"] == "out" and not m["fn"][i]) or g.intent.get(i + 1, 0) is None]
        for s in m["subs"]:
            mine = [i + 1 for i, v in enumerate(m["vars"]) if v["comp"] == s["path"] and v["io"] != "in"]
            if s["kind"] == "comp" and len(mine) == 1 and rng.random() < .25:
                s["kind"] = "impl"
                m["vars"][mine[0] - 1]["io"] = "state"
                for e, ts in enumerate(m["fn"][mine[0] - 1]):
                    ts.append({"c": q(rng.choice([-1, -2, 2, -4])), "v": [[mine[0], e + 1]]})
        ops, sets = [{"op": "setup"}], []
        try:
            of, wrt = all_computed(m), all_indeps(m)
            for rep in range(2):
                if rep:
                    v = rng.choice(settable)
                    sets.append((v, [q(rng.choice([-1, 0, 1, 2, F(1, 2), -3])) for _ in range(m["vars"][v - 1]["size"])]))
                    ops.append({"op": "set", "v": v, "val": sets[-1][1]})
                settled(g, m, sets)
                ops.append({"op": "qrun"})
                rng.shuffle(of)
                rng.shuffle(wrt)
                for md in rng.choice([["fwd", "rev"], ["rev", "fwd"]]) if not rep else [rng.choice(["auto", "fwd", "rev"])]:
                    ops.append({"op": "grad", "mode": md, "of": list(of), "wrt": list(wrt)})
            if rng.random() < .3:       # set up again: everything starts from the declared values
                if rng.random() < .5:
                    ops += [{"op": "setup"}, {"op": "qrun"}]
                else:
                    ops += [{"op": "setup"}, {"op": "set", "v": sets[0][0], "val": sets[0][1]}, {"op": "qrun"}]
                ops.append({"op": "grad", "mode": rng.choice(["fwd", "rev"]), "of": list(of), "wrt": list(wrt)})
        except Bad:
            continue
        groups = [""] + [s["path"] for s in m["subs"] if s["kind"] == "group"]
        solv = {}
        for p in sorted(groups, key=lambda x: (x != "", x.count("."))):
            up = g.parent(p) if p else None
            above, labove, c = False, False, cyclic(g, m, p)
            a, newton = up, False
            while p and a is not None:
                above = above or solv[a]["nl"] != "runonce"
                # (iterating over the subsystems of a group needs them to be solved)
                labove = labove or (solv[a]["ln"] in ("gmres", "direct_mvp") and not newton)
                newton = newton or solv[a]["nl"] == "newton"
                a = g.parent(a) if a else None
            nl = rng.choice(["nlgs", "nlgs", "newton"]) if (c and not above) or rng.random() < .25 else "runonce"
            ln = rng.choice(["gmres", "direct_mvp", "lngs_it"]) if (c and not labove) or rng.random() < .3 or \
                nl == "newton" else "lngs"
            solv[p] = {"nl": nl, "ln": ln, "nlmax": 200}
        m["rootsolv"] = solv[""]
        for s in m["subs"]:
            if s["kind"] == "group":
                s["solv"] = solv[s["path"]]
            elif s["kind"] == "comp" and rng.random() < .3:
                s["kind"] = "mf"
            elif s["kind"] == "impl":
                # a state that nothing but Newton's method solves for
                newton = any(solv[a]["nl"] == "newton" for a in g.chain(g.parent(s["path"])) + [""])
                s["opt"] = {"solves": not newton or rng.random() < .6}
        tame(m)
        if rng.random() < .3 and m["rootsolv"]["ln"] == "direct_mvp" and not any(s["kind"] == "mf" for s in m["subs"]):
            m["rootsolv"]["ln"] = "direct_asm"
        return {"m": m, "ops": ops, "g": g}
