"""C17: unit conversion.  Random unit expressions (names, prefixes, products, quotients, powers, invalid ones) queried
in random histories on a fresh unit library each."""
import math, os, random, re, sys
from common import run_impl, rat, LIM, VERIF

NAMES = {
    "m": "m ft inch mi nmi NM Ang ly a0".split(), "kg": "kg g lb lbm oz slug t Da u ton".split(), "s": "s ms us das min h d wk a yr mo".split(),
    "T": "K degC degF degR degK".split(), "A": "A".split(), "N": "N lbf dyn".split(), "P": "Pa psi psf bar atm torr".split(),
    "E": "J cal Btu eV erg cali Eh".split(), "W": "W hp".split(), "w": "rad deg arc_minute arc_second rev".split(), "O": "rpm rps".split(),
    "V": "L galUS galUK cup tsp tbsp pt qt floz".split(), "v": "kn knot c0".split(), "z": "unitless mol cd sr USD pax byte".split(),
    "e": "Hz Bq C V F ohm S Wb T H lm lx Gy Sv kat St P sb ph Mx gauss Oe ha acre b hbar me e mu0 eps0 R".split()}
ALL = sorted(set(re.findall(r'^  "(\w+)" :> D', open(os.path.join(VERIF, "spec", "UnitLib.tla")).read(), re.M)))
PRE = "Y Z E P T G M k h da d c m u n p f a z y Ei Pi Ti Gi Mi Ki".split()
CON = {"1": 1, "2": 2, "10": 10, "2.5": 2.5, "1e3": 1000., "0.5": .5, "60": 60}
# names whose reading depends on the order of lookups if lookups leave anything behind
TRICKY = "dam am das dag ag mkN kN dah ah dat at kms ms daa aa mPas Pas min cd mmin nmi nnmi Pa hPa dPa kkg mg dapt apt kdegC mdegC Mibyte kibyte Kibyte".split()
BADS = "zork kzork m/ pi q mm2 xx".split()


def rand_name(rng, prefix=.3):
    cls = rng.choice(list(NAMES))
    n = rng.choice(NAMES[cls])
    r = rng.random()
    if r < prefix and n != "s":
        return rng.choice(PRE) + n
    return n


def leaf(rng):
    r = rng.random()
    if r < .08:
        return {"k": "n", "name": rng.choice(TRICKY)}
    if r < .10:
        return {"k": "n", "name": rng.choice(["zork", "kzork", "pi", "xx", "qft"])}
    if r < .2:
        return {"k": "n", "name": rng.choice(ALL)}
    if r < .26:
        return {"k": "c", "c": rng.choice(list(CON))}
    return {"k": "n", "name": rand_name(rng)}


def expr(rng, depth):
    r = rng.random()
    if depth == 0 or r < .3:
        return leaf(rng)
    if r < .8:
        return {"k": rng.choice("*/"), "a": expr(rng, depth - 1), "b": expr(rng, depth - 1)}
    n, q = rng.choice([(2, 1), (3, 1), (-1, 1), (-2, 1), (0, 1), (1, 1), (1, 2)])
    return {"k": "^", "a": expr(rng, depth - 1), "n": n, "r": q}


def text(rng, e, top=True):
    sp = (lambda: " " if rng.random() < .1 else "")
    if e["k"] == "n":
        return e["name"]
    if e["k"] == "c":
        return e["c"]
    if e["k"] == "^":
        a = e["a"]
        t = text(rng, a, False)
        if a["k"] not in ("n",):
            t = "(%s)" % t
        return "%s**%s" % (t, "0.5" if e["r"] == 2 else e["n"])
    a, b = text(rng, e["a"], False), text(rng, e["b"], False)
    if e["b"]["k"] in "*/":
        b = "(%s)" % b
    return a + sp() + e["k"] + sp() + b


def scale_const(x):
    return any(scale_const(x[k]) for k in "ab" if k in x) or (x["k"] == "c")


def compat(rng, e):
    """another expression of the same dimensions, by replacing names with others of their class and rescaling"""
    if e["k"] == "n":
        for cls, ns in NAMES.items():
            if e["name"] in ns and cls not in "ez":
                n = rng.choice(ns)
                return {"k": "n", "name": rng.choice(PRE) + n if n != "s" and rng.random() < .2 else n}
        return e
    if e["k"] == "c":
        return {"k": "c", "c": rng.choice(list(CON))} if rng.random() < .5 else e
    if e["k"] == "^":
        return dict(e, a=compat(rng, e["a"]))
    a, b = compat(rng, e["a"]), compat(rng, e["b"])
    if e["k"] == "*" and rng.random() < .5:
        a, b = b, a
    return dict(e, a=a, b=b)


def lib():
    sys.modules.pop("openmdao.units.units", None)
    import openmdao.units.units as u
    return u


def only_nums(e):
    return e["k"] == "c" or all(only_nums(e[k]) for k in "ab" if k in e) and e["k"] != "n"


def unclear(e):
    """a number divided by a scale with an offset: whether '1/degF' is a unit is not stated anywhere"""
    if e["k"] == "/" and only_nums(e["a"]) and e["b"]["k"] == "n" and e["b"]["name"] in ("degC", "degF"):
        return True
    return any(unclear(e[k]) for k in "ab" if k in e)


def clear(f):
    while True:
        e = f()
        if not unclear(e):
            return e


def attempt(f):
    try:
        return True, f()
    except (SystemExit, KeyboardInterrupt):
        raise
    except Exception:
        return False, None


def relerr(a, b):
    """relative difference in units of 1e-12"""
    try:
        a, b = float(a), float(b)
        if a == b:
            return 0
        v = abs(a - b) / max(abs(a), abs(b)) * 1e12
        return int(min(v, LIM)) if v == v else LIM
    except Exception:
        return LIM


def mul(x):
    try:
        return int(round(math.log(abs(x)) * 1e6))
    except Exception:
        return LIM


def conv(u, a, b, ta, tb, rng):
    ev = {"op": "conv", "a": a, "b": b, "ta": ta, "tb": tb}
    xs = [rng.choice([-40.0, 0.0, 25.0, 100.0, 2.5, -7.25]) for _ in range(2)]
    x0 = rng.choice([3, 1.0, 2.5, -4.0, 1e6])
    order = list(range(4))
    rng.shuffle(order)
    res = {}

    def tup(): return u.get_conversion_tuple(ta, tb)
    def cv(): return [u.convert_units(x, ta, tb) for x in xs + [x0]]

    def pq():
        q = u.PhysicalQuantity(x0, ta)
        r = q.in_units_of(tb)
        v = q.convert_value(u._find_unit(tb))
        q.convert_to_unit(tb)
        return [r.value, v, q.value]

    def pqs(): return u.PhysicalQuantity("%r %s" % (float(abs(x0)), ta)).in_units_of(tb).value
    for i in order:
        res[i] = attempt([tup, cv, pq, pqs][i])
    ok = [res[i][0] for i in range(4)]
    va = attempt(lambda: u.PhysicalQuantity(1.0, ta))[0]
    vb = attempt(lambda: u.PhysicalQuantity(1.0, tb))[0]
    ev.update(ok=ok, valid=[va, vb], compat=False, lf=LIM, pos=False, err=LIM, agree=LIM, xs=[], ys=[], off0=False, scaled=False)
    if all(ok):
        f, o = res[0][1]
        ys = res[1][1]
        want = (x0 + o) * f
        ev["compat"] = bool(attempt(lambda: u.PhysicalQuantity(1.0, ta).is_compatible(tb))[1])
        ev["lf"], ev["pos"] = mul(f), bool(f > 0)
        b = attempt(lambda: [u.convert_units(y, tb, ta) for y in ys])[1] or [None] * 3
        big = max(abs(o), 1.0) if o else 0.0
        errs = []
        for x, y in zip(xs + [x0], b):
            errs.append(relerr(x + big, y + big) if y is not None else LIM)
        ev["err"] = max(errs)
        ev["agree"] = max([relerr(want + big, v + big) for v in res[2][1]] + [relerr(want + big, ys[2] + big)]
                          + [relerr((abs(x0) + o) * f + big, res[3][1] + big)])
        ev["off0"] = o == 0
        ev["scaled"] = all(relerr(x * f, y) <= 20 for x, y in zip(xs + [x0], ys))
        ev["xs"], ev["ys"] = [rat(x) for x in xs], [rat(y) for y in ys[:2]]
    return ev


def run_hist(job):
    rng = random.Random(job["seed"])
    u = lib()
    ev, pool, txt = [], [], []
    tricky = rng.sample(TRICKY, 8)
    for i in range(job["len"]):
        r = rng.random()
        if pool and r < .25:
            a = rng.choice(pool)
        elif r < .4:
            a = {"k": "n", "name": rng.choice(tricky)}
        elif r < .5:
            a = {"k": "n", "name": rng.choice(NAMES["T"])}
        else:
            a = clear(lambda: expr(rng, rng.choice([0, 1, 1, 2, 2, 3])))
        b = clear(lambda: compat(rng, a) if rng.random() < .75 else expr(rng, rng.choice([0, 1, 2])))
        c = clear(lambda: compat(rng, a))
        pool.append(a)
        ta, tb, tc = text(rng, a), text(rng, b), text(rng, c)
        ev.append(conv(u, a, b, ta, tb, rng))
        if rng.random() < .4:
            x = rng.choice([1.0, -3.5, 20.0])
            ok, v = attempt(lambda: u.convert_units(u.convert_units(x, ta, tc), tc, tb))
            w = attempt(lambda: u.convert_units(x, ta, tb))[1]
            o = attempt(lambda: abs(u.get_conversion_tuple(ta, tb)[1]) + 1 if u.get_conversion_tuple(ta, tb)[1] or
                        u.get_conversion_tuple(ta, tc)[1] else 0.)[1] or 0.
            ev.append({"op": "comp", "a": a, "b": b, "c": c, "ta": ta, "tb": tb, "tc": tc, "ok": ok,
                       "err": relerr(v + o, w + o) if ok and w is not None else LIM})
        if rng.random() < .3 and "0.5" not in ta and "**0" not in ta and "unitless" not in ta:
            # in_base_units names its result by the base units, so a dimensionless or fractional one has no name
            val, un = attempt(lambda: u.PhysicalQuantity(1.0, ta).unit)
            if not val or any(un.powers):
                xs = [rng.choice([-40.0, 25.0, 0.0]) for _ in range(2)]
                ok, q = attempt(lambda: [u.PhysicalQuantity(x, ta).in_base_units().value for x in xs + [1.0]])
                ev.append({"op": "base", "a": a, "ta": ta, "ok": ok, "xs": [rat(x) for x in xs],
                           "ys": [rat(y) for y in q[:2]] if ok else [], "lf": mul(q[2]) if ok else LIM})
    return {"id": job["id"], "kind": "history", "outcome": "done", "ev": ev}


def check_C17(chk):
    chk.mc("UnitsMC", workers=4, timeout=300)
    jobs = [{"id": "u%d" % i, "seed": "%d-%d" % (chk.seed, i), "len": 22} for i in range(chk.n(500, 6000))]
    recs = run_impl(chk, "c_units:run_hist", jobs)
    for r in recs:
        r.setdefault("ev", [{"op": "none"}])
    chk.notes["histories"] = len(recs)
    chk.notes["queries"] = sum(len(r["ev"]) for r in recs)
    chk.sample(recs[0]["ev"][:3])
    chk.validate("UnitsTrace", recs)
