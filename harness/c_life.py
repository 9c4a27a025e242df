"""C16: repeated setup, set, run and derivative requests on one Problem."""
import copy, random
from fractions import Fraction as F
import coregen
from coregen import q, Bad, simulate, simgrad
from common import run_impl


class Shim(object):
    pass


def rootname(m, vi):
    v = m["vars"][vi]
    subs = {s["path"]: s for s in m["subs"]}
    name, s = v["name"], subs[v["comp"]]
    while True:
        name = name if any(coregen.glob(pat, name) for pat in s["prom"]) else s["name"] + "." + name
        if not s["parent"]:
            return name
        s = subs[s["parent"]]


def without(g, m, X):
    """the model without the system X at top level, or None when nothing sensible is left"""
    inx = lambda p: p == X or p.startswith(X + ".")
    keep = [i for i, v in enumerate(m["vars"]) if not inx(v["comp"])]
    if not any(m["fn"][i] for i in keep) or not any(m["vars"][i]["io"] == "out" and not m["fn"][i] for i in keep):
        return None
    mp = {i + 1: k + 1 for k, i in enumerate(keep)}
    m1 = copy.deepcopy(m)
    m1["vars"] = [m1["vars"][i] for i in keep]
    m1["fn"] = [[[dict(t, v=[[mp[a], b] for a, b in t["v"]]) for t in ts] for ts in m1["fn"][i]] for i in keep]
    m1["subs"] = [s for s in m1["subs"] if not inx(s["path"])]
    names = {}
    for i in range(len(m["vars"])):
        names.setdefault(rootname(m, i), set()).add(inx(m["vars"][i]["comp"]))
    gone = lambda n: names.get(n) == {True}
    m1["conns"], newc = [], []
    if any(not c["grp"] and len(names.get(c["src"], {1})) > 1 for c in m["conns"]):
        return None
    for c in copy.deepcopy(m["conns"]):
        if c["grp"]:
            (newc if inx(c["grp"]) else m1["conns"]).append(c)
            continue
        if gone(c["src"]):
            newc.append(c)
            continue
        now = [t for t in c["tgts"] if not gone(t)]
        lat = [t for t in c["tgts"] if gone(t)]
        if now:
            m1["conns"].append(dict(c, tgts=now))
        if lat:
            newc.append(dict(c, tgts=lat))
    m2 = copy.deepcopy(m)
    m2["conns"] = copy.deepcopy(m1["conns"]) + newc
    m1["order"] = [[a, [n for n in l if a or n != X]] for a, l in m1["order"] if not inx(a) or not a]
    g1 = Shim()
    g1.rank, g1.prom = g.rank, g.prom
    g1.intent = {}
    def up(t):
        it = coregen.resolve(g, m, t)
        return None if not it or it[0] not in mp else (mp[it[0]], it[1])
    for t in mp:
        g1.intent[mp[t]] = up(t)
    if any(not v["sized"] and g1.intent[i + 1] is None for i, v in enumerate(m1["vars"]) if v["io"] == "in"):
        return None
    return m1, g1, m2, [s["path"] for s in m["subs"] if inx(s["path"])], list(range(len(m1["conns"]), len(m2["conns"])))


def dirs(rng, m, absolute):
    p = rng.choice([0, .3, .6])
    def one(n):
        if rng.random() >= p:
            return {"has": False, "abs": False, "d": []}
        return {"has": True, "abs": rng.random() < .25, "d": rng.choice([["d_" + n], ["e", "f_" + n], ["same"]])}
    m["rootdir"] = one("root")
    for s in m["subs"]:
        s["dir"] = one(s["name"])


def script(rng, g, m, sets):
    """operations after a setup"""
    ops = []
    settable = [i + 1 for i, v in enumerate(m["vars"]) if (v["io"] == "out" and not m["fn"][i]) or
                (v["io"] == "in" and g.intent.get(i + 1, 0) is None)]
    of, wrt = coregen.all_computed(m), coregen.all_indeps(m)
    comps = [s for s in m["subs"] if s["kind"] in ("comp", "mf")]
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(["set", "set", "run", "fail", "fail", "late", "grad"])
        if k == "set" and settable:
            v = rng.choice(settable)
            sets.append((v, [q(rng.choice([-1, 0, 1, 2, F(1, 2), -3])) for _ in range(m["vars"][v - 1]["size"])]))
            ops.append({"op": "set", "v": v, "val": sets[-1][1]})
        elif k == "run":
            ops.append({"op": rng.choice(["run", "run_once"])})
        elif k == "late":
            ops.append({"op": "refuse", "what": rng.choice(["add_param", "add_output", "add_state", "again"])})
        elif k == "fail" and comps:
            s = rng.choice(comps)
            what = rng.choice(["run", "run", "run_once", "grad"])
            at = rng.choice(["solve", "solved"]) if what != "grad" or m["rootfd"]["type"] != "user" else rng.choice(["solve", "linearize", "apply"])
            f = {"op": "fail", "what": what, "fault": {"c": s["path"], "at": at, "n": rng.choice([1, 1, 1, 2, 3]),
                 "exc": rng.choice(["ValueError", "AnalysisError", "KeyboardInterrupt", "ZeroDivisionError", "RuntimeError"])}}
            if what == "grad":
                f.update(of=of, wrt=wrt, mode="fwd" if m["rootfd"]["type"] == "cs" else "fd" if at in ("solve", "solved") else rng.choice(["fwd", "rev"]))
                ops.append({"op": "run"})
            ops.append(f)
            if what == "grad" or rng.random() < .5:
                ops.append({"op": "run"})
        elif k == "grad":
            ops += [{"op": "run"}, {"op": "grad", "mode": rng.choice(["fwd", "rev", "fd"]) if m["rootfd"]["type"] != "cs" else "fwd", "of": of, "wrt": wrt}, {"op": "run"}]
        vals = simulate(g, m, sets)
        simgrad(g, m, vals)
        for x in vals.values():
            if any(abs(y) > 200 or y.denominator > 64 for y in x):
                raise Bad()
    ops += [{"op": rng.choice(["run", "run_once"])}]
    if rng.random() < .8:
        ops.append({"op": "grad", "mode": rng.choice(["fwd", "rev"]) if m["rootfd"]["type"] == "user" else "fwd", "of": of, "wrt": wrt})
    return ops


def resolv(rng, m):
    lns = ["lngs", "lngs", "gmres", "direct_mvp", "direct_asm"]
    mf = any(s["kind"] == "mf" for s in m["subs"])
    m["rootsolv"] = {"nl": rng.choice(["runonce", "runonce", "nlgs"]), "ln": rng.choice(lns[:4] if mf else lns)}
    for s in m["subs"]:
        if s["kind"] == "group":
            s["solv"] = {"nl": rng.choice(["runonce", "runonce", "nlgs"]), "ln": rng.choice(lns[:4])}
    coregen.tame(m)


def gen(seed):
    k = 0
    while True:
        k += 1
        rng = random.Random("life/%s/%d" % (seed, k))
        c = coregen.gen_grad("%s/%d" % (seed, k), pquad=0.3, punit=0.25)
        m, g = c["m"], c["g"]
        m["rootfd"] = dict(coregen.fd_opts(rng), type="user", pp=[])
        if rng.random() < .3:
            m["rootfd"]["type"] = rng.choice(["fd", "cs", "cs"])
            if m["rootfd"]["type"] == "cs":
                m["rootfd"].update(step=[1, 1048576], calc="absolute")
            for s in m["subs"]:
                if s["kind"] == "mf":
                    s["kind"] = "comp"
        dirs(rng, m, True)
        early = [{"op": "refuse", "what": w} for w in rng.sample(["get", "set", "run", "run_once", "grad", "gradfd", "chkp", "chkt"], rng.choice([0, 1, 2, 8]))]
        segs = []
        try:
            kind = rng.choice(["again", "again", "grow", "grow", "grow"])
            if kind == "grow":
                tops = [s["path"] for s in m["subs"] if not s["parent"]]
                r = without(g, m, rng.choice(tops))
                if r is None:
                    continue
                m1, g1, m2, news, newc = r
                resolv(rng, m1)
                segs.append({"m": m1, "ops": early + [{"op": "setup"}] + script(rng, g1, m1, [])})
                m2["rootsolv"] = m1["rootsolv"]
                old = {s["path"]: s for s in m1["subs"]}
                for s in m2["subs"]:
                    if s["path"] in old and s["kind"] == "group":
                        s["solv"] = old[s["path"]]["solv"]
                coregen.tame(m2)
                if m2["rootsolv"]["ln"] == "direct_asm" and any(s["kind"] == "mf" for s in m2["subs"]):
                    continue
                if m2["rootsolv"] != m1["rootsolv"] or any(s["kind"] == "group" and s["path"] in old and s["solv"] != old[s["path"]]["solv"] for s in m2["subs"]):
                    continue
                stale = [{"op": "refuse", "what": rng.choice(["run", "run_once"])}] if rng.random() < .5 else []
                segs.append({"m": m2, "newsubs": news, "newconns": newc, "ops": stale + [{"op": "setup"}] + script(rng, g, m2, [])})
            else:
                resolv(rng, m)
                segs.append({"m": m, "ops": early + [{"op": "setup"}] + script(rng, g, m, [])})
            for _ in range(rng.choice([0, 1, 1, 2])):
                m3 = copy.deepcopy(segs[-1]["m"])
                s = {"m": m3}
                stale = []
                if rng.random() < .5:
                    resolv(rng, m3)
                    s["solvers"] = True
                    stale = [{"op": "refuse", "what": rng.choice(["run", "run_once"])}] if rng.random() < .5 else []
                if rng.random() < .4:
                    dirs(rng, m3, True)
                s["ops"] = stale + [{"op": "setup"}] + script(rng, g, m3, [])
                segs.append(s)
            m4 = copy.deepcopy(segs[-1]["m"])
            tgts = [c for c in m4["conns"] if not c["grp"]]
            outs = [i for i, v in enumerate(m4["vars"]) if v["io"] != "in"]
            if tgts and rng.random() < .4:      # a second source, or a name that does not exist: refused, and not to be run then
                c = rng.choice(tgts)
                src = rng.choice([rootname(m4, rng.choice(outs)), "nowhere.y"])
                if src != c["src"]:
                    m4["conns"].append({"grp": "", "src": src, "tgts": [rng.choice(c["tgts"])], "idx": [], "has": False, "as": "list"})
                    segs.append({"m": m4, "newconns": [len(m4["conns"]) - 1], "ops": [{"op": "setup", "then": True}]})
        except Bad:
            continue
        for s in segs:
            s["topo"] = [p for p in sorted({v["comp"] for v in s["m"]["vars"]}, key=lambda p: g.rank[p])
                         if any(x["path"] == p and x["kind"] in ("comp", "mf") for x in s["m"]["subs"])]
        return segs


def check_C16(chk):
    jobs = []
    for i in range(chk.n(160, 2500)):
        jobs.append({"id": "h%d" % i, "segs": gen("%s-%d" % (chk.seed, i))})
    recs = run_impl(chk, "lifemodel:run_history", jobs)
    by = {j["id"]: j for j in jobs}
    cases = []
    for r in recs:
        for k, s in enumerate(r.get("segs") or by[r["id"]]["segs"][:1]):
            c = {"id": "%s.%d" % (r["id"], k), "kind": "life", "tol": [0, 1], "key": "", "outcome": r["outcome"], "m": s["m"],
                 "ev": s.get("ev") or [{"e": "none"}], "topo": s["topo"], "trace": r.get("trace", ""), "ops": s["ops"]}
            if not s.get("ev") and r["outcome"] == "done":
                c["outcome"] = "nothing"
            cases.append(c)
    chk.notes["histories"] = len(jobs)
    chk.notes["segments"] = len(cases)
    chk.notes["failures_injected"] = sum(1 for c in cases for e in c["ev"] if e["e"] == "fail" and e["fired"])
    chk.notes["refused_operations"] = sum(1 for c in cases for e in c["ev"] if e["e"] == "refuse")
    chk.sample(cases[0])
    chk.validate("CoreTrace", cases, relevant=lambda c: True)
