"""C21: part of a generated model is wrapped as a component with a problem of its own; what it does is judged against the
model in which nothing is wrapped."""
import copy
import random
import coregen
from common import run_impl


def inside(path, g):
    return path == g or path.startswith(g + ".")


def rel(path, g):
    return path[len(g) + 1:] if g else path


def wrap(rng, g, m, entries):
    """choose groups and what they expose; False when the model gives something only one of the two variants can mean"""
    vs = m["vars"]
    comps = {s["path"] for s in m["subs"] if s["kind"] != "group"}
    cand = [s["path"] for s in m["subs"] if s["kind"] == "group" and any(inside(c, s["path"]) for c in comps)]
    if not cand:
        return False
    top = rng.choice(cand)
    deeper = [c for c in cand if c != top and inside(c, top)]
    where = ([rng.choice(deeper)] if deeper and rng.random() < .6 else []) + [top]
    m["wrap"], m["stand"], m["hidden"] = {}, [], []
    outer = {c["path"]: c["prom"] for c in m["subs"]}
    name = {}       # (wrapped group, variable) -> the name it is exposed under, or none
    for w in where:
        mine = [i + 1 for i, v in enumerate(vs) if inside(v["comp"], w)]
        par = {i: i for i in mine}

        def find(i):
            while par[i] != i:
                i = par[i]
            return i
        at = {}
        for i in mine:
            n = g.name_at(i, w)
            if n in at:
                par[find(i)] = find(at[n])
            at[n] = i
        used = {}
        for c in m["conns"]:
            ids = [c["sv"]] + c["tv"]
            if inside(c["grp"], w):
                for t in c["tv"]:
                    par[find(t)] = find(c["sv"])
            elif inside(vs[c["sv"] - 1]["comp"], w) and any(inside(vs[t - 1]["comp"], w) for t in c["tv"]):
                return False      # a connection from the wrapped part to itself
        roots = {find(i) for i in mine if vs[i - 1]["io"] != "in"}
        for c in m["conns"]:
            if not inside(c["grp"], w):
                for i in [c["sv"]] + c["tv"]:
                    if i in par:
                        if find(i) in roots and vs[i - 1]["io"] == "in":
                            return False
                        used.setdefault(find(i), set()).add(g.name_at(i, w))
        for n in outer.get(w, []):
            if n not in at:
                return False
            if find(at[n]) in roots and vs[at[n] - 1]["io"] == "in":
                return False
            used.setdefault(find(at[n]), set()).add(n)
        for i in mine:
            if vs[i - 1]["io"] == "in" and find(i) not in roots:
                it = coregen.resolve(g, m, i)
                if it and inside(vs[it[0] - 1]["comp"], w):
                    return False      # the same by way of an input outside
        params, unknowns, entry, renamed = [], [], [], {}
        sub = [x for x in m["wrap"] if inside(x, w)]
        for k in sorted({find(i) for i in mine}):
            if k in roots:
                continue
            u = sorted(used.get(k, ()))
            if len(u) > 1:
                return False
            members = [i for i in mine if find(i) == k]
            # what a wrapped part inside does not expose cannot be exposed here
            ok = [n for n in sorted({g.name_at(i, w) for i in members
                                     if all(name.get((x, i)) for x in sub if inside(vs[i - 1]["comp"], x))})]
            # names of members that another member stands for in the part inside
            ok = [n for n in ok if any(g.name_at(i, w) == n and all(g.name_at(i, x) == name[x, i] for x in sub if inside(vs[i - 1]["comp"], x))
                                       for i in members)]
            if u and u[0] not in ok:
                return False
            n = u[0] if u else (rng.choice(ok) if ok and rng.random() < .8 else None)
            if n and entries:
                nm = "ent%d" % (len(entry) + 1)
                vi = at[n]
                if "." in n:
                    entry.append([vi, nm, "v", n])
                    renamed[n] = nm + ".v"
                    n = nm + ".v"
                else:
                    entry.append([vi, nm, n, ""])
            for i in members:
                name[w, i] = n
            if not entries and len({(vs[i - 1]["size"], vs[i - 1]["unit"]) for i in members}) > 1:
                return False
            for i in members[1:]:     # unconnected inputs that are one must begin as one
                if vs[i - 1]["size"] == vs[members[0] - 1]["size"]:
                    vs[i - 1]["val"] = list(vs[members[0] - 1]["val"])
            if n:
                params.append(n)
            else:
                m["hidden"] += members
        for i in mine:
            if vs[i - 1]["io"] == "in":
                continue
            n = g.name_at(i, w)
            indep = not m["fn"][i - 1]
            if indep and entries and (w != top or used.get(find(i)) or any(inside(vs[i - 1]["comp"], x) for x in m["wrap"])):
                return False
            if indep and w == top and not used.get(find(i)) and (entries or rng.random() < .5) and \
                    not any(inside(vs[i - 1]["comp"], x) for x in m["wrap"]):
                # an independent variable inside is given from outside
                nm = "vp%d" % (len(m["stand"]) + 1)
                m["stand"].append([i, nm, w + "." + n])
                params.append(n)
                name[w, i] = n
            else:
                unknowns.append(n)
                name[w, i] = n
                if indep and used.get(find(i)):
                    m["hidden"].append(i)     # (what is outside may run first, and would not know that it has been given)
        rng.shuffle(params)
        rng.shuffle(unknowns)
        m["wrap"][w] = {"params": params, "unknowns": unknowns, "entry": entry}
        for c in m["conns"]:
            if not inside(c["grp"], w) and renamed:
                pre = rel(w, c["grp"]) + "."
                new = lambda x: pre + renamed[x[len(pre):]] if x.startswith(pre) and x[len(pre):] in renamed else x
                c["tgts"] = [new(x) for x in c["tgts"]]
                c["src"] = new(c["src"])
    for x in m["subs"]:
        # a problem refuses single-pass Gauss-Seidel for a cycle of groups
        if x["path"] in m["wrap"] and x["solv"]["ln"] == "lngs" and any(y["kind"] == "group" and y["parent"] == x["path"] for y in m["subs"]):
            x["solv"] = dict(x["solv"], ln="direct_mvp")
    levels = [""] + sorted(m["wrap"], key=len)
    loc = []
    for i, v in enumerate(vs):
        st = [x for x in m["stand"] if x[0] == i + 1]
        if st:
            loc.append(["", st[0][1] + ".v"])
            continue
        got = None
        for L in levels:
            if L and not inside(v["comp"], L):
                continue
            below = [x for x in levels if x and x != L and inside(x, L) and inside(v["comp"], x)] if L else \
                    [x for x in levels if x and inside(v["comp"], x)]
            if not below:
                ab = rel(v["comp"], L) + "." + v["name"]
            else:
                x = min(below, key=len)
                n = name.get((x, i + 1)) if v["io"] == "in" or m["fn"][i] else None   # (only there can it be given)
                ab = rel(x, L) + "." + n if n else None
            if ab:
                got = [L, ab]
                break
        loc.append(got)
    m["loc"] = loc
    return True


def again(rng, g, m, ops):
    """the history goes on: further runs, other values, another setup (after which everything is as declared)"""
    vs = m["vars"]
    settable = [i + 1 for i, v in enumerate(vs) if ((v["io"] == "out" and not m["fn"][i]) or g.intent.get(i + 1, 0) is None)
                and i + 1 not in m["hidden"]]
    grads = [op for op in ops if op["op"] == "grad"]
    sets = [(op["v"], op["val"]) for op in ops if op["op"] == "set"]
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .3:
            ops.append({"op": "setup"})
            sets = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            if settable:
                v = rng.choice(settable)
                sets.append((v, [coregen.q(rng.choice([-1, 0, 1, 2, -3])) for _ in range(vs[v - 1]["size"])]))
                ops.append({"op": "set", "v": v, "val": sets[-1][1]})
        coregen.simgrad(g, m, coregen.simulate(g, m, sets))
        ops.append({"op": "run"})
        if grads and rng.random() < .7:
            ops.append(dict(rng.choice(grads), mode=rng.choice(["fwd", "rev", "auto"])))


def misfit(rng, g, m):
    """something that cannot be exposed as an input: (group, variable or 0, name)"""
    vs = m["vars"]
    w = rng.choice(sorted(m["wrap"]))
    mine = [i + 1 for i, v in enumerate(vs) if inside(v["comp"], w)]
    outs = {g.name_at(i, w) for i in mine if vs[i - 1]["io"] != "in"}
    deep = [x for x in m["wrap"] if x != w and inside(x, w)]
    pool = [(0, rng.choice(["nope", "q.x"]))]
    for i in mine:
        n = g.name_at(i, w)
        if vs[i - 1]["io"] != "in":
            if m["fn"][i - 1]:
                pool.append((i, n))
            elif any(inside(vs[i - 1]["comp"], x) for x in deep):
                pool += [(i, n)] * 4
        elif n not in outs and not any(inside(vs[i - 1]["comp"], x) for x in deep):
            it = coregen.resolve(g, m, i)
            if it and inside(vs[it[0] - 1]["comp"], w):
                pool.append((i, n))
    v, n = rng.choice(pool)
    return {"w": w, "v": v, "n": n}


def unify(rng, g, m):
    """inputs that share what they are given from outside get units of their own; False when there are none"""
    vs = m["vars"]
    classes = {}
    for i, v in enumerate(vs):
        if v["io"] == "in" and any(inside(v["comp"], w) for w in m["wrap"]) and coregen.resolve(g, m, i + 1):
            classes.setdefault(tuple(m["loc"][i]), []).append(i + 1)
    done = False
    for key, mem in sorted(classes.items()):
        if key[0] == "" and len(mem) > 1:
            src = coregen.resolve(g, m, mem[0])[0]
            sv = vs[src - 1]
            others = [i + 1 for i, v in enumerate(vs) if v["io"] == "in" and i + 1 not in mem and v["unit"] and
                      (coregen.resolve(g, m, i + 1) or [0])[0] == src]
            if not sv["unit"] and not others:
                put(sv, rng.choice(["m", "cm", "min", "degC", "inch"]))
            if sv["unit"]:
                u = rng.choice(coregen.NEAR[sv["unit"]])
                for i in mem:
                    put(vs[i - 1], u)
                done = True
    return done


def put(v, unit):
    fam, f, o = coregen.UNITS[unit]
    v.update(fam=fam, unit=unit, f=coregen.q(f), o=coregen.q(o))


def gen(seed, bad=False, known=False):
    k = 0
    share = random.Random(seed).random() < .3 and not bad and not known
    while True:
        k += 1
        rng = random.Random("wrap/%s/%d" % (seed, k))
        # inputs that are shared by several components, in units of their own
        more = dict(psrc=.55, punit=.7) if share or rng.random() < .5 else {}
        c = coregen.gen_grad("w%s/%d" % (seed, k), pextra=0, pwild=0, pquad=.4, noasm=True, ncomp=6, **more)
        g, m = c.pop("g"), c["m"]
        g.prom = {s["path"]: s["prom"] for s in m["subs"]}
        if any(not v["sized"] for v in m["vars"]):
            continue
        entries, conns = rng.random() < .65 and not (bad or known or share), copy.deepcopy(m["conns"])
        if not wrap(rng, g, m, entries):
            continue
        if share:
            if not unify(rng, g, m) or coregen.mixed_len(m):
                continue
            try:
                coregen.simulate(g, m)
                coregen.simulate(g, m, [(op["v"], op["val"]) for op in c["ops"] if op["op"] == "set"])
            except coregen.Bad:
                continue
        plain = dict(copy.deepcopy(m), conns=conns)
        if known and (len(m["wrap"]) > 1 or m["stand"] or not m["wrap"][sorted(m["wrap"])[0]]["params"] or
                      any(m["loc"][v - 1][0] for v in coregen.all_indeps(m))):
            continue
        if not entries and not known:
            c["ops"] = [op for op in c["ops"] if op["op"] != "grad"]
        # the specification sees the model as it is without the wrapping
        c["m"], c["real"] = plain, m["conns"]
        if any(op["op"] == "set" and op["v"] in m["hidden"] for op in c["ops"]):
            continue
        if bad:
            b = misfit(rng, g, m)
            plain["wrap"][b["w"]]["params"].append(b["n"])
            c["ops"] = [dict(b, op="expose")]
        elif not known:
            try:
                again(rng, g, m, c["ops"])
            except coregen.Bad:
                continue
        return c


def check_C21(chk):
    cases = []
    n = chk.n(180, 2500)
    for i in range(n):
        # the last ones, the same for every seed, show the known finding
        known, bad = i >= n - 2, i % 5 == 4
        c = gen("k-%d" % (n - i) if known else "%d-%d" % (chk.seed, i), bad=bad and not known, known=known)
        c.update(id="w%d" % i, tol=[0, 1], kind="wrap", key="dangling-grad" if known else "wrap")
        cases.append(c)
    recs = run_impl(chk, "coremodel:run_case", cases)
    for r in recs:
        r.setdefault("ev", [{"e": "none"}])
        if "m" not in r:
            r.update(next(c for c in cases if c["id"] == r["id"]))
    chk.notes["models"] = len(recs)
    chk.notes["accepted"] = sum(1 for r in recs if r["ev"][0].get("ok"))
    chk.notes["events"] = sum(len(r["ev"]) for r in recs)
    chk.notes["nested"] = sum(1 for c in cases if len(c["m"]["wrap"]) > 1)
    chk.sample(recs[0])
    # (what the enclosing problem reports about its structure is not what the inlined one would report)
    chk.validate("CoreTrace", recs, relevant=lambda c: c not in ("C02:unconnected-report", "C02:cycle-report", "C02:order-report"))
