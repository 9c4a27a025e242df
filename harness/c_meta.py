"""C20: surrogate components.  The surrogates are stand-ins that log what they are trained with and answer with values
computed from their tag, the number of their trainings and the columns of the input."""
import random
from common import run_impl


def surrogate(tag, log, multi):
    import numpy as np
    from openmdao.surrogate_models.surrogate_model import SurrogateModel, MultiFiSurrogateModel

    class Sur(MultiFiSurrogateModel if multi else SurrogateModel):
        def __init__(self):
            super(Sur, self).__init__()
            self.tag, self.n = tag, 0

        def __deepcopy__(self, memo):
            s = Sur()
            s.tag = None
            return s

        def train(self, x, y):
            self.trained = True
            self.n += 1
            log.append((self, [rows(x)], [rows(y)]))

        def train_multifi(self, x, y):
            self.trained = True
            self.n += 1
            log.append((self, [rows(a) for a in x], [rows(a) for a in y]))

        def predict(self, x):
            x = np.asarray(x, dtype=float).ravel()
            s = sum((k + 1) * v for k, v in enumerate(x))
            return np.array([1000. * self.tag + 100 * self.n + (j + 1) * s for j in range(self.m)])

        def linearize(self, x):
            x = np.asarray(x).ravel()
            return np.array([[(j + 1.) * (k + 1) + self.tag for k in range(len(x))] for j in range(self.m)])
    s = Sur()
    return s


def num(v):
    i = int(round(float(v)))
    return i if abs(float(v) - i) < 1e-9 else 999999


def rows(a):
    import numpy as np
    a = np.asarray(a, dtype=float)
    return [[num(v) for v in np.ravel(r)] for r in a]


def form(rng, pts, shape):
    """training points in one of the ways a user may give them"""
    import numpy as np
    if shape is None:
        r = rng.random()
        fl = [float(p[0]) for p in pts]
        if r < .4:
            return fl
        if r < .7:
            return np.array(fl)
        if r < .85:
            return [int(p[0]) for p in pts]
        return [np.array([v]) for v in fl]
    arrs = [np.array(p, dtype=float).reshape(shape) for p in pts]
    r = rng.random()
    if r < .4:
        return arrs
    if r < .6:
        return np.array(arrs)
    return [a.tolist() for a in arrs]


def run_job(job):
    import numpy as np
    from openmdao.api import Problem, Group, IndepVarComp, MetaModel
    from openmdao.components.multifi_meta_model import MultiFiMetaModel
    rng = random.Random(job["s"])
    nfi = rng.choice([1, 1, 1, 1, 2, 3])
    multi = nfi > 1 or rng.random() < .15
    shapes = lambda: rng.choice([None, None, (2,), (3,), (1,), (2, 2)])
    ins = [("x%d" % i, shapes()) for i in range(rng.randint(1, 4))]
    outs = [("y%d" % i, shapes()) for i in range(rng.randint(1, 3))]
    size = lambda s: 1 if s is None else int(np.prod(s))
    log, ev = [], []
    mm = MultiFiMetaModel(nfi=nfi) if multi else MetaModel()
    tags, first = {}, []
    # declarations may alternate between inputs and outputs
    decl = [("i",) + x for x in ins] + [("o",) + x for x in outs]
    if rng.random() < .5:
        rng.shuffle(decl)
        ins = [d[1:] for d in decl if d[0] == "i"]
        outs = [d[1:] for d in decl if d[0] == "o"]
    default = rng.random() < .5
    counter = [0]

    def points(n, shape):
        res = []
        for _ in range(n):
            counter[0] = (counter[0] * 7 + 13) % 997
            res.append([(counter[0] + 11 * k) % 89 - 30 for k in range(size(shape))])
        return res
    n0 = rng.randint(1, 4)
    owner = {}
    for kind, name, shape in decl:
        val = 0.0 if shape is None else np.zeros(shape)
        kw = {}
        if not multi and rng.random() < .3:
            pts = points(n0, shape)
            kw["training_data"] = form(rng, pts, shape)
            first.append({"op": "set", "fi": 1, "name": name, "rows": pts})
        if kind == "i":
            mm.add_param(name, val=val, **kw)
        else:
            if not default or rng.random() < .4:
                s = surrogate(len(tags) + 1, log, multi)
                s.m = size(shape)
                kw["surrogate"] = s
                owner[name] = s
            tags[name] = len(tags) + 1
            mm.add_output(name, val=val, **kw)
    if len(owner) < len(outs):
        mm.default_surrogate = surrogate(99, log, multi)
    prob = Problem(root=Group())
    prob.root.add("p", IndepVarComp([(n, 0.0 if s is None else np.zeros(s)) for n, s in ins]))
    prob.root.add("mm", mm)
    for n, s in ins:
        prob.root.connect("p." + n, "mm." + n)
    def setup():
        prob.setup(check=False)
        for n, s in outs:
            sur = mm._init_unknowns_dict[n].get("surrogate")
            if n not in owner or (sur is not owner[n] and sur.tag is None):
                sur.tag, sur.m, sur.n = tags[n], size(s), 0
                owner[n] = sur
    setup()
    ev += [{"op": "setup"}] + first
    have = {(1, e["name"]) for e in first}
    key = lambda n, fi: "mm.train:" + (n if fi == 1 else "%s_fi%d" % (n, fi))
    warm = False

    def give(n, only=None, odd=None):
        for fi in range(1, nfi + 1):
            for name, s in ins + outs:
                if only and name not in only:
                    continue
                pts = points(n + (1 if odd == (fi, name) else 0), s)
                prob[key(name, fi)] = form(rng, pts, s)
                ev.append({"op": "set", "fi": fi, "name": name, "rows": pts})

    def run():
        x = []
        for n, s in ins:
            v = [rng.randint(-9, 9) for _ in range(size(s))]
            x += v
            prob["p." + n] = float(v[0]) if s is None else np.array(v, dtype=float).reshape(s)
        del log[:]
        e = {"op": "run", "err": False, "what": "", "x": x, "out": {}, "lin": False, "jac": {}, "trained": []}
        try:
            prob.run()
        except RuntimeError as exc:
            e["err"], e["what"] = True, str(exc)[:200]
        e["trained"] = [{"tag": s.tag, "X": X, "Y": Y} for s, X, Y in log]
        if not e["err"]:
            for n, s in outs:
                e["out"][n] = [num(v) for v in np.ravel(prob["mm." + n])]
            if rng.random() < .5:
                e["lin"] = True
                J = prob.calc_gradient(["p." + n for n, s in ins], ["mm." + n for n, s in outs], mode=rng.choice(["fwd", "rev"]), return_format="dict")
                for n, s in outs:
                    e["jac"][n] = {m: [[num(v) for v in r] for r in np.asarray(J["mm." + n]["p." + m]).reshape(size(s), size(t))] for m, t in ins}
                if len(log) != len(e["trained"]):
                    e["trained"] += [{"tag": s.tag, "X": X, "Y": Y} for s, X, Y in log[len(e["trained"]):]]
        ev.append(e)
    if len(have) < len(ins) + len(outs) or nfi > 1 or rng.random() < .3:
        if have:
            give(n0, only=[n for n, s in ins + outs if (1, n) not in have])
        else:
            give(rng.randint(1, 4))
    if rng.random() < .3:
        warm = mm.warm_restart = True
        ev.append({"op": "warm", "b": True})
    lens = None
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .45:
            run()
        elif r < .7:
            give(rng.randint(1, 4))
            if rng.random() < .75:
                mm.train = True
                ev.append({"op": "request"})
                run()
        elif r < .8:
            mm.train = True
            ev.append({"op": "request"})
            run()
        elif r < .9:
            warm = not warm
            mm.warm_restart = warm
            ev.append({"op": "warm", "b": warm})
        elif r < .95:
            name = rng.choice(ins + outs)[0]
            if len(ins) + len(outs) > 1:
                give(rng.randint(1, 3), odd=(rng.randint(1, nfi), name))
                mm.train = True
                ev.append({"op": "request"})
                run()
                give(rng.randint(1, 3))
        elif not warm and len(owner) and not default:
            # a new setup resets the values of the training parameters to the declared ones, then the user gives them again
            setup()
            ev.append({"op": "setup"})
            give(rng.randint(1, 3))
    run()
    off, o = {}, 0
    for n, s in ins:
        off[n] = o
        o += size(s)
    return {"id": job["id"], "outcome": "done", "nfi": nfi, "ins": [n for n, s in ins], "outs": [n for n, s in outs], "tags": tags,
            "size": {n: size(s) for n, s in ins + outs}, "off": off, "ev": ev}


def check_C20(chk):
    chk.mc("MetaModelMC", workers=4, timeout=300)
    jobs = [{"id": "h%d" % i, "s": "%s-%d" % (chk.seed, i)} for i in range(chk.n(400, 6000))]
    recs = run_impl(chk, "c_meta:run_job", jobs)
    for r in recs:
        if r["outcome"] != "done":
            r.update(nfi=1, ins=["a"], outs=["y"], tags={"y": 1}, size={"a": 1, "y": 1}, off={"a": 0}, ev=[{"op": "setup"}])
    chk.notes["histories"] = len(recs)
    chk.notes["runs"] = sum(1 for r in recs for e in r["ev"] if e["op"] == "run")
    chk.notes["trainings"] = sum(len(e.get("trained", ())) for r in recs for e in r["ev"])
    chk.sample(recs[0])
    chk.validate("MetaModelTrace", recs)
