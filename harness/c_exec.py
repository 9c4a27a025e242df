"""C22: components defined by expressions.  See ExecComp.tla."""
import random
from fractions import Fraction as F
from common import run_impl, rat

NAMES = ["x", "y", "z", "x1", "x_1", "sinx", "e1", "exp_", "E", "numpyx", "a:b", "a:bc", "a:b:c", "X", "yy", "lst", "absy", "_w", "a0b", "T"]
LIM = 2 ** 13


class TooBig(Exception):
    pass


def ok(v):
    if abs(v.numerator) > LIM or v.denominator > LIM:
        raise TooBig()
    return v


def bc(a, b, f):
    n = max(len(a), len(b))
    return [f(a[0 if len(a) == 1 else i], b[0 if len(b) == 1 else i]) for i in range(n)]


def dmul(p, q):
    return (ok(p[0] * q[0]), {k: ok(ok(p[0] * q[1].get(k, 0)) + ok(q[0] * p[1].get(k, 0))) for k in set(p[1]) | set(q[1])})


def dadd(p, q, s=1):
    return (ok(p[0] + s * q[0]), {k: ok(p[1].get(k, F(0)) + s * q[1].get(k, F(0))) for k in set(p[1]) | set(q[1])})


def dinv(p):
    if p[0] == 0:
        raise TooBig()
    i = ok(1 / p[0])
    return (i, {k: ok(-v * ok(i * i)) for k, v in p[1].items()})


def val(env, e):
    o = e["op"]
    if o == "c":
        return [(F(*e["v"]), {})]
    if o == "v":
        return env[e["n"]]
    if o == "i":
        return [env[e["n"]][e["i"] - 1]]
    a = val(env, e["a"])
    if o == "add":
        return bc(a, val(env, e["b"]), dadd)
    if o == "sub":
        return bc(a, val(env, e["b"]), lambda p, q: dadd(p, q, -1))
    if o == "mul":
        return bc(a, val(env, e["b"]), dmul)
    if o == "div":
        return bc(a, val(env, e["b"]), lambda p, q: dmul(p, dinv(q)))
    if o == "neg":
        return [(-p[0], {k: -v for k, v in p[1].items()}) for p in a]
    if o == "abs":
        if any(p[0] == 0 for p in a):
            raise TooBig()
        return [p if p[0] > 0 else (-p[0], {k: -v for k, v in p[1].items()}) for p in a]
    if o == "pow":
        r = a
        for _ in range(e["k"] - 1):
            r = [dmul(p, q) for p, q in zip(a, r)]
        return r
    if o == "dot":
        a = bc(a, val(env, e["b"]), dmul)
    r = a[0]
    for q in a[1:]:
        r = dadd(r, q)
    return [r]


def execute(vals, prog, ins):
    env = {n: [(v, {(n, i): F(1)} if n in ins else {}) for i, v in enumerate(vs)] for n, vs in vals.items()}
    for s in prog:
        v = val(env, s["e"])
        t = list(env[s["n"]])
        if s["i"]:
            t[s["i"] - 1] = v[0]
        else:
            t = [v[0 if len(v) == 1 else i] for i in range(len(t))]
        env[s["n"]] = t
    return {n: [p[0] for p in env[n]] for n in env}


def uses(e):
    if e["op"] in ("v", "i"):
        return {e["n"]}
    return set().union(*[uses(e[k]) for k in ("a", "b") if k in e]) if "a" in e else set()


def gen(rng):
    names = rng.sample(NAMES, rng.randint(2, 6))
    n = rng.choice([2, 2, 3])
    shapes = {m: rng.choice([(), (), (n,), (n,), (1,), (2, 2)]) for m in names}
    size = lambda m: {(): 1, (1,): 1, (n,): n, (2, 2): 4}[shapes[m]]
    nout = rng.randint(1, min(3, len(names) - 1))
    outs, ins = names[:nout], names[nout:]

    def leaf(shape, pool):
        """an expression of the given shape (or a scalar one)"""
        same = [m for m in pool if shapes[m] == shape]
        q = rng.random()
        if same and q < .6:
            return {"op": "v", "n": rng.choice(same)}
        arr = [m for m in pool if shapes[m] not in ((),)]
        if arr and q < .75:
            m = rng.choice(arr)
            return {"op": "i", "n": m, "i": rng.randint(1, size(m))}
        if arr and q < .82:
            return {"op": "sum", "a": {"op": "v", "n": rng.choice(arr)}}
        d1 = [m for m in pool if shapes[m] == (n,)]
        if d1 and q < .9:
            return {"op": "dot", "a": {"op": "v", "n": rng.choice(d1)}, "b": {"op": "v", "n": rng.choice(d1)}}
        sc = [m for m in pool if shapes[m] == ()]
        if sc and q < .97:
            return {"op": "v", "n": rng.choice(sc)}
        return {"op": "c", "v": list(rng.choice([(2, 1), (1, 2), (3, 1), (10, 1), (1, 4), (-1, 1)]))}

    def expr(shape, pool, d):
        if d == 0:
            return leaf(shape, pool)
        o = rng.choice(["add", "add", "sub", "mul", "mul", "div", "neg", "pow", "abs", "leaf"])
        if o == "leaf":
            return leaf(shape, pool)
        if o in ("neg", "abs"):
            return {"op": o, "a": expr(shape, pool, d - 1)}
        if o == "pow":
            return {"op": o, "a": leaf(shape, pool), "k": rng.randint(2, 3)}
        return {"op": o, "a": expr(shape, pool, d - 1), "b": leaf(shape, pool) if o == "div" else expr(shape, pool, d - 1)}
    prog, done = [], []
    for m in outs:
        pool = ins + done + (outs if rng.random() < .08 else [])
        if shapes[m] not in ((),) and rng.random() < .35:
            for i in rng.sample(range(size(m)), rng.randint(1, size(m))):
                prog.append({"n": m, "i": i + 1, "e": expr((), pool, rng.randint(0, 2))})
        else:
            e = expr(shapes[m], pool, rng.randint(1, 3))
            prog.append({"n": m, "i": 0, "e": e})
        done.append(m)
    return names, shapes, prog, n, size


def run_job(job):
    import numpy as np
    import pickle
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp
    rng = random.Random(job["s"])
    RV = lambda: F(rng.choice([-3, -2, -1, 1, 2, 3, 1, 2]), rng.choice([1, 1, 2]))
    while True:
        names, shapes, prog, n, size = gen(rng)
        used = set(s["n"] for s in prog)
        for s in prog:
            used |= uses(s["e"])
        outs = sorted({s["n"] for s in prog})
        ins = sorted(used - set(outs))
        if not ins:
            continue
        # whole values need the shape of the variable or to be scalar (then broadcasting into an array is left to numpy)
        init = {m: [F(0) if rng.random() < .3 and shapes[m] == () else RV() for _ in range(size(m))] for m in used}
        try:
            after = execute(init, prog, ins)
            execute(after, prog, ins)
        except TooBig:
            continue
        break

    def shape_of(e):
        o = e["op"]
        if o == "v":
            return shapes[e["n"]]
        if o in ("c", "i", "sum", "dot"):
            return ()
        a = shape_of(e["a"])
        if "b" in e:
            b = shape_of(e["b"])
            return a if len(a) >= len(b) and a != (1,) or b == () else b
        return a

    def num(v):
        f = F(*v)
        return rng.choice({F(2): ["2.0", "2.", "2", "2e0", "2.0E0"], F(1, 2): [".5", "0.5", "5e-1", "5.0E-1"], F(3): ["3.0", "3"],
                           F(10): ["1e1", "10.0", "1E+1", "1.0e1"], F(1, 4): ["0.25", "2.5e-1"], F(-1): ["(-1.0)", "-1.0"]}[f])

    def idx(m, i):
        if shapes[m] == (2, 2):
            return "[%d,%d]" % ((i - 1) // 2, (i - 1) % 2)
        return "[%d]" % (i - 1)

    def text(e):
        o = e["op"]
        if o == "c":
            return num(e["v"])
        if o == "v":
            return e["n"]
        if o == "i":
            return e["n"] + idx(e["n"], e["i"])
        if o in ("add", "sub", "mul", "div"):
            sp = rng.choice(["", " "])
            return "(" + text(e["a"]) + sp + {"add": "+", "sub": "-", "mul": "*", "div": "/"}[o] + sp + text(e["b"]) + ")"
        if o == "neg":
            return "(-" + text(e["a"]) + ")"
        if o == "pow":
            return rng.choice(["(%s**%d)" % (text(e["a"]), e["k"]), "pow(%s, %d)" % (text(e["a"]), e["k"])])
        if o == "abs":
            return "abs(%s)" % text(e["a"])
        if o == "sum":
            return rng.choice(["numpy.sum(%s)", "sum(%s)" if len(shape_of(e["a"])) == 1 else "numpy.sum(%s)"]) % text(e["a"])
        return "numpy.dot(%s,%s)" % (text(e["a"]), text(e["b"]))
    exprs = []
    for s in prog:
        t = s["n"] + (idx(s["n"], s["i"]) if s["i"] else "") + rng.choice(["=", " = "]) + text(s["e"])
        exprs.append(t)
    # an array assigned a scalar expression, or arrays of different shapes, are not what is declared
    for s in prog:
        sh = shape_of(s["e"])
        if s["i"] and sh not in ((),) or not s["i"] and sh != shapes[s["n"]]:
            return {"id": job["id"], "outcome": "skip"}

    def arr(m, v):
        return float(v[0]) if shapes[m] == () else np.array([float(x) for x in v]).reshape(shapes[m])
    kw, inits = {}, {}
    for m in used:
        if shapes[m] == () and init[m][0] == 0 and rng.random() < .7:
            continue
        (inits if ":" in m or rng.random() < .3 else kw)[m] = arr(m, init[m])
    units = {m: rng.choice(["m", "kg*s", "degF", "N"]) for m in used if rng.random() < .3}
    given = sorted(set(kw) | set(inits))
    if rng.random() < .1:
        bad = rng.choice(["q", "xx", "e", "numpy", "sin", "a"])
        if bad not in used:
            if rng.random() < .5:
                units[bad] = "m"
            else:
                (inits if rng.random() < .5 else kw)[bad] = 1.0
                given.append(bad)
    ev = []
    fr = lambda v: [v.numerator, v.denominator]
    case = {"id": job["id"], "outcome": "done", "prog": prog, "init": {m: [fr(x) for x in init[m]] for m in used}, "given": given, "units": dict(units), "ev": ev,
            "exprs": exprs}
    try:
        e0 = exprs[0] if len(exprs) == 1 and rng.random() < .5 else list(exprs)
        comp = ExecComp(e0, inits=inits or None, units=units or None, **kw)
        if rng.random() < .2:
            comp = pickle.loads(pickle.dumps(comp))
    except RuntimeError as e:
        ev.append({"op": "decl", "ok": False, "err": str(e)})
        return case
    p = Problem(root=Group())
    src = {}
    p.root.add("c", comp, promotes=["*"] if rng.random() < .3 else None)
    pre = "" if comp._promotes else "c."
    if not pre:
        pass
    for k, m in enumerate(ins):
        if rng.random() < .5:
            p.root.add("i%d" % k, IndepVarComp("v", arr(m, init[m]), **({"units": units[m]} if m in units else {})))
            p.root.connect("i%d.v" % k, pre + m)
            src[m] = "i%d.v" % k
    p.root.set_order(sorted(k.name for k in p.root.subsystems() if k.name != "c") + ["c"])
    p.setup(check=False, out_stream=None)
    vec = lambda v: [rat(x) for x in np.ravel(v)]

    def snap():
        out = {m: vec(comp.params[m]) for m in comp.params}
        out.update({m: vec(comp.unknowns[m]) for m in comp.unknowns})
        return {m: out.get(m, []) for m in used}
    ev.append({"op": "decl", "ok": True, "err": "", "ins": list(comp.params), "outs": list(comp.unknowns),
               "val": {m: (vec(comp.unknowns[m]) if m in comp.unknowns else vec(comp.params[m])) for m in used
                       if m in comp.unknowns or (m in comp.params and m not in src)},
               "units": {m: (comp.unknowns if m in comp.unknowns else comp.params).metadata(m).get("units") or "" for m in used}})
    cur = {m: list(v) for m, v in init.items()}
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 3)):
            m = rng.choice(ins)
            new = [RV() for _ in cur[m]]
            try:
                t = dict(cur, **{m: new})
                execute(execute(t, prog, ins), prog, ins)
            except TooBig:
                continue
            cur[m] = new
            p[src.get(m, pre + m)] = arr(m, new)
            ev.append({"op": "set", "n": m, "v": [fr(x) for x in new]})
        try:
            nxt = execute(cur, prog, ins)
            execute(nxt, prog, ins)
        except TooBig:
            break
        cur = nxt
        p.run()
        ev.append({"op": "run", "val": snap()})
        for _ in range(rng.randint(0, 2)):
            J = comp.linearize(comp.params, comp.unknowns, comp.resids)
            ev.append({"op": "lin", "val": snap(), "J": [{"u": u, "p": q, "m": [[jrat(x) for x in row] for row in np.atleast_2d(m)]} for (u, q), m in J.items()]})
    return case


def jrat(x):
    """A complex-step derivative carries an error of the order of the squared step: the simplest fraction nearby."""
    for den, tol in ((1, 1e-6), (64, 1e-6), (2000, 1e-8)):
        r = rat(x, den, tol)
        if r[1]:
            return r
    return rat(x)


def check_C22(chk):
    chk.mc("ExecCompMC", workers=8, timeout=300)
    n = chk.n(900, 10000)
    recs = run_impl(chk, "c_exec:run_job", [{"id": "e%d" % i, "s": "%s-%d" % (chk.seed, i)} for i in range(n)])
    recs = [r for r in recs if r["outcome"] != "skip"]
    for r in recs:
        if r["outcome"] != "done":
            r.update(prog=[{"n": "y", "i": 0, "e": {"op": "c", "v": [1, 1]}}], init={"y": [[0, 1]]}, given=[], units={"y": "m"}, ev=[{"op": "none"}])
        if not r["units"]:
            r["units"] = {sorted(r["init"])[0]: ""}
    chk.notes["histories"] = len(recs)
    chk.notes["runs"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "run")
    chk.notes["linearizations"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "lin")
    chk.sample(recs[0])
    chk.validate("ExecCompTrace", recs)
