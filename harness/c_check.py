"""C23: derivative checks of components and of whole models.  Generated models whose components declare some partial
derivatives wrongly (an entry changed in both directions or in one of them, a pair left out)."""
import random
from fractions import Fraction as F
import coregen
from common import run_impl
from coregen import q, guard, Bad


def simulate(g, m, sets=()):
    """exact values along the intended wiring, also of states R = f(inputs) - a s"""
    kind = {s["path"]: s["kind"] for s in m["subs"]}
    vals = {i + 1: [F(*x) for x in v["val"]] for i, v in enumerate(m["vars"])}
    for v, val in sets:
        vals[v] = [F(*x) for x in val]
    for p in sorted({v["comp"] for v in m["vars"]}, key=lambda p: g.rank[p]):
        env = {i + 1: coregen.inval(g, m, vals, i + 1) for i, v in enumerate(m["vars"]) if v["comp"] == p and v["io"] == "in"}
        for i, v in enumerate(m["vars"]):
            if v["comp"] == p and v["io"] != "in" and m["fn"][i]:
                if kind[p] == "impl":
                    env[i + 1] = [F(0)] * v["size"]
                out = [guard(coregen.polyf(ts, env)) for ts in m["fn"][i]]
                if kind[p] == "impl":
                    out = [guard(x / -F(*next(t["c"] for t in ts if t["v"] == [[i + 1, e + 1]]))) for e, (x, ts) in enumerate(zip(out, m["fn"][i]))]
                vals[i + 1] = out
    return vals


def cyclic(g, m):
    """whether the children of some group depend on each other in a cycle"""
    E = {}
    for i, v in enumerate(m["vars"]):
        it = coregen.resolve(g, m, i + 1) if v["io"] == "in" else None
        if it:
            a, b = m["vars"][it[0] - 1]["comp"].split("."), v["comp"].split(".")
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                k += 1
            if k < min(len(a), len(b)):
                E.setdefault((".".join(a[:k])), set()).add((a[k], b[k]))
    for es in E.values():
        es = set(es)
        while True:
            new = {(a, d) for a, b in es for c, d in es if b == c} - es
            if not new:
                break
            es |= new
        if any(a == b for a, b in es):
            return True
    return False


def gen(seed, known=False):
    k = 0
    while True:
        k += 1
        rng = random.Random("chk/%s/%d" % (seed, k))
        g = coregen.Gen(rng, pquad=0.5, punit=0.3, ncomp=rng.choice([2, 3, 4]))
        m = g.make()
        if coregen.mixed_len(m) or coregen.dotted(g, m) or cyclic(g, m):
            continue
        coregen.fill_prom(g, m)
        lns = ["lngs", "lngs", "gmres", "direct_mvp", "direct_asm"]
        m["rootsolv"] = {"nl": "runonce", "ln": rng.choice(lns)}
        m["rootfd"] = {"type": "user", "pp": [], "form": "forward", "step": [1, 1], "calc": "absolute"}
        m["rootchk"] = dict(coregen.fd_opts(rng), type=rng.choice(["fd", "fd", "cs"]), pp=[])
        m["rootchk"]["type"] = "fd"
        m["wrong"], m["nojac"] = [], []
        pfd = rng.choice([0, 0, .4])
        for s in m["subs"]:
            s["fd"] = {"type": "user", "pp": []}
            if s["kind"] == "group":
                s["solv"] = {"nl": "runonce", "ln": rng.choice(lns[:4])}
            if s["kind"] != "comp":
                continue
            outs = [i + 1 for i, v in enumerate(m["vars"]) if v["comp"] == s["path"] and v["io"] != "in"]
            ins = [i + 1 for i, v in enumerate(m["vars"]) if v["comp"] == s["path"] and v["io"] == "in"]
            s["chk"] = dict(coregen.fd_opts(rng), type=rng.choice(["fd", "fd", "cs"]))
            if s["chk"]["type"] == "cs":
                s["chk"].update(step=[1, 1024], calc="absolute", form="forward")
            if len(outs) == 1 and rng.random() < .35:
                s["kind"] = "impl"
                s["opt"] = {"solves": True}
                for e in range(m["vars"][outs[0] - 1]["size"]):
                    m["fn"][outs[0] - 1][e].append({"c": q(rng.choice([-1, -2, F(-1, 2), -1])), "v": [[outs[0], e + 1]]})
            elif rng.random() < pfd:
                s["fd"] = dict(coregen.fd_opts(rng), type=rng.choice(["fd", "fd", "cs"]), pp=[])
                if s["fd"]["type"] == "cs":
                    s["fd"].update(step=[1, 1024], calc="absolute", form="forward")
                elif rng.random() < .4:
                    # the settings of the check: nothing to compare, the component is left out
                    s["chk"] = dict((a, b) for a, b in s["fd"].items() if a != "pp")
                    if rng.random() < .6:       # ... or all of its settings but one
                        a = rng.choice(["form", "step", "calc", "calc"])
                        s["chk"][a] = rng.choice([x for x in {"form": ["forward", "backward", "central"], "step": [[1, 1], [1, 4], [1, 8]],
                                                              "calc": ["absolute", "relative"]}[a] if x != s["chk"][a]])
            elif m["rootsolv"]["ln"] != "direct_asm" and rng.random() < .35:
                s["kind"] = "mf"
            if pfd and rng.random() < .25 and ins:
                # inputs promoted to one name need one setting
                own = [x for x in ins if not any(coregen.glob(pat, m["vars"][x - 1]["name"]) for pat in s["prom"])]
                if own:
                    s["fd"]["pp"].append(dict(coregen.fd_opts(rng), v=rng.choice(own)))
            if s["fd"]["type"] != "user":
                continue
            if rng.random() < .15 and ins and s["kind"] != "impl":
                m["nojac"].append([rng.choice(outs), rng.choice(ins)])
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                o = rng.choice(outs)
                x = rng.choice(ins + (outs if s["kind"] == "impl" else [])) if ins else None
                if x is None or [o, x] in m["nojac"]:
                    continue
                r, c = rng.randint(1, m["vars"][o - 1]["size"]), rng.randint(1, m["vars"][x - 1]["size"])
                if x == o:
                    c = r
                if any(w["o"] == o and w["x"] == x and w["r"] == r and w["k"] == c for w in m["wrong"]):
                    continue
                m["wrong"].append({"o": o, "x": x, "r": r, "k": c, "d": q(rng.choice([F(1, 4), 3, -1, 1]) if x != o else F(1, 4)),
                                   "dir": rng.choice(["both", "fwd", "rev"]) if s["kind"] == "mf" else "both"})
        for s in m["subs"]:
            s.setdefault("chk", {"type": "fd", "form": "forward", "step": [1, 1], "calc": "absolute"})
        settable = [i + 1 for i, v in enumerate(m["vars"])
                    if (v["io"] == "out" and not m["fn"][i]) or g.intent.get(i + 1, 0) is None]
        paths = [s["path"] for s in m["subs"] if s["kind"] in ("comp", "mf", "impl")]
        anyfd = any(s["fd"]["type"] != "user" or s["fd"]["pp"] for s in m["subs"])
        if known and anyfd:
            continue
        ops, sets = [{"op": "setup"}], []
        try:
            for rep in range(rng.choice([1, 2, 2])):
                if rep:
                    v = rng.choice(settable)
                    sets.append((v, [q(rng.choice([-1, 0, 1, 2, F(1, 2), -3])) for _ in range(m["vars"][v - 1]["size"])]))
                    ops.append({"op": "set", "v": v, "val": sets[-1][1]})
                vals = simulate(g, m, sets)
                for v in vals.values():
                    for x in v:
                        if abs(x) > 200 or x.denominator > 64:
                            raise Bad()
                if rep or rng.random() < .6:
                    ops.append({"op": "qrun"})
                for _ in range(rng.choice([1, 1, 2])):
                    if (rng.random() < .6 or anyfd) and not known:
                        glob = {}
                        if rng.random() < .25:
                            glob = dict(coregen.fd_opts(rng))
                            glob = dict((a, b) for a, b in glob.items() if rng.random() < .6)
                        ops.append({"op": "chkp", "comps": rng.sample(paths, rng.randint(1, len(paths))) if rng.random() < .35 else [],
                                    "glob": glob, "stream": rng.choice([0, 1, 2])})
                    else:
                        ops.append({"op": "chkt", "stream": rng.choice([0, 1, 1]), "of": coregen.all_computed(m), "wrt": coregen.all_indeps(m)})
                        ops.append({"op": "qrun"})
                if rng.random() < .3 and not anyfd:
                    of, wrt = coregen.all_computed(m), coregen.all_indeps(m)
                    ops.append({"op": "qrun"})
                    ops.append({"op": "grad", "mode": rng.choice(["fwd", "rev"]), "of": of, "wrt": wrt, "cl": "C23:afterwards"})
        except Bad:
            continue
        m["decl"] = {"dvs": [], "fns": []}
        if rng.random() < .4:
            ind, comp = coregen.all_indeps(m), coregen.all_computed(m)
            if rng.random() < .7 and ind:
                m["decl"]["dvs"] = rng.sample(ind, rng.randint(1, len(ind)))
            if rng.random() < .7 and comp:
                fs = rng.sample(comp, rng.randint(1, min(3, len(comp))))
                one = rng.choice([0, 0, 1])
                m["decl"]["fns"] = [[v, "obj" if one and not k else "con"] for k, v in enumerate(fs)]
        topo = [p for p in sorted({v["comp"] for v in m["vars"]}, key=lambda p: g.rank[p]) if p in paths]
        coregen.tame(m)
        return {"m": m, "ops": ops, "topo": topo}


def check_C23(chk):
    cases = []
    n = chk.n(240, 3000)
    for i in range(n):
        known = i >= n - 3        # the last cases, the same for every seed, show the known finding
        c = gen("k-%d" % (n - i) if known else "%s-%d" % (chk.seed, i), known)
        c.update(id="k%d" % i, tol=[0, 1], kind="chk", key="total-check" if known else "check")
        cases.append(c)
    recs = run_impl(chk, "coremodel:run_case", cases)
    for r in recs:
        r.setdefault("ev", [{"e": "none"}])
        if "m" not in r:
            r.update(next(c for c in cases if c["id"] == r["id"]))
    chk.notes["models"] = len(recs)
    chk.notes["partial_checks"] = sum(1 for r in recs for e in r["ev"] if e["e"] == "chkp")
    chk.notes["pairs"] = sum(len(x["pairs"]) for r in recs for e in r["ev"] if e["e"] == "chkp" for x in e["rep"])
    chk.notes["total_checks"] = sum(1 for r in recs for e in r["ev"] if e["e"] == "chkt")
    chk.notes["wrong_entries"] = sum(len(r["m"]["wrong"]) for r in recs)
    chk.sample(recs[0])
    ALWAYS = ("unevaluable", "C01:no-outcome", "C02:rejected-wellformed", "C01:run-failed")
    chk.validate("CoreTrace", recs, relevant=lambda c: c.startswith("C23") or c in ALWAYS)
