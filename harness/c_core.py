import c_order
import coregen
from common import run_impl


def default_solv(m, ln="lngs"):
    m.setdefault("rootsolv", {"nl": "runonce", "ln": ln})
    for s in m["subs"]:
        if s["kind"] == "group":
            s.setdefault("solv", {"nl": "runonce", "ln": ln})


def dataflow_cases(chk, n, mutated, base=0, **o):
    cases = []
    for i in range(n):
        mu = mutated(i)
        c = coregen.gen_case("%d-%d" % (chk.seed, base + i), mutated=mu, **o)
        c.pop("g")
        default_solv(c["m"], "gmres" if i % 4 == 1 else "lngs")
        c.update(id="m%d" % (base + i), tol=[0, 1], kind="model")
        cases.append(c)
    return cases


# a well-formed model that is refused, or an outcome that cannot be judged, breaks whatever was to be decided on it
ALWAYS = ("unevaluable", "C01:no-outcome", "C02:rejected-wellformed", "C01:run-failed")


def run_and_validate(chk, cases, pid):
    recs = run_impl(chk, "coremodel:run_case", cases)
    for r in recs:
        r.setdefault("ev", [{"e": "none"}])
        if "m" not in r:
            r.update(next(c for c in cases if c["id"] == r["id"]))
    ok = sum(1 for r in recs if r["ev"] and r["ev"][0].get("ok"))
    chk.notes["models"] = len(recs)
    chk.notes["models_accepted_by_setup"] = ok
    chk.notes["events"] = sum(len(r["ev"]) for r in recs)
    chk.sample(recs[0])
    chk.validate("CoreTrace", recs, relevant=lambda c: c.startswith(pid) or c in ALWAYS)
    return recs


def check_C01(chk):
    cases = dataflow_cases(chk, chk.n(240, 3000), lambda i: False) + cyc_cases(chk, chk.n(60, 1000), base=500000)
    for c in cases:
        c["ops"] = [op for op in c["ops"] if op["op"] != "grad"]
    run_and_validate(chk, cases, "C01")


def check_C02(chk):
    cases = dataflow_cases(chk, chk.n(400, 5000), lambda i: i % 3 != 0, base=100000)
    # names with dots promoted from inside a group (also onto the inputs of the component that computes the source)
    for i in range(chk.n(40, 400)):
        c = coregen.gen_case("dotted-%d-%d" % (chk.seed, i), clash=True, pextra=.5, ncomp=4)
        c.pop("g")
        default_solv(c["m"])
        c.update(id="k%d" % i, tol=[0, 1], kind="model")
        cases.append(c)
    run_and_validate(chk, cases, "C02")


def check_C03(chk):
    chk.mc("OrderMC", workers=8, timeout=600)
    cases = dataflow_cases(chk, chk.n(140, 3000), lambda i: False, base=200000)
    run_and_validate(chk, cases, "C03")
    chk.validate("OrderTrace", c_order.cases(chk, chk.n(300, 6000)))


def cyc_cases(chk, n, base=0):
    cases = []
    for i in range(n):
        c = coregen.gen_cyc("%d-%d" % (chk.seed, base + i))
        c.pop("g")
        c.update(id="y%d" % i, tol=[0, 1], kind="cyc", fx=-coregen.NEARD)
        cases.append(c)
    return cases


def check_C04(chk):
    cases = cyc_cases(chk, chk.n(120, 2000))
    for i in range(chk.n(160, 2500)):
        c = coregen.gen_grad("%d-%d" % (chk.seed, i), pquad=0.4)
        c.pop("g")
        c.update(id="g%d" % i, tol=[0, 1], kind="grad")
        cases.append(c)
    run_and_validate(chk, cases, "C04")


def check_C05(chk):
    cases = []
    n = chk.n(140, 2000)
    for i in range(n):
        known = i >= n - 4
        c = coregen.gen_sub("k-%d" % (n - i) if known else "%d-%d" % (chk.seed, i), known=known)
        c.pop("g")
        c.update(id="s%d" % i, tol=[0, 1], kind="sub", key="array-scaler-ln" if known else "sub")
        cases.append(c)
    run_and_validate(chk, cases, "C05")


def check_C06(chk):
    cases = []
    n = chk.n(160, 2000)
    for i in range(n):
        known = (i - n + 12) // 6 + 1      # the last cases, the same for every seed, show the known findings
        opts, key = {1: (dict(kind="root", known=1), "total-fd"), 2: (dict(kind="group", known=2), "group-fd-indep")}.get(known, ({}, None))
        c = coregen.gen_fd("k-%d" % (n - i + 17) if key else "%d-%d" % (chk.seed, i), **opts)
        c.pop("g")
        c.update(id="f%d" % i, tol=[0, 1], kind="fd", key=key or c["fdkind"])
        cases.append(c)
    run_and_validate(chk, cases, ("C06", "C01:value-read"))
