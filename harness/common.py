"""Shared machinery: TLC runner, exact-number encoding, evidence, verdict protocol."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
LIM = 2 ** 30


def rat(x, maxden=200000, tol=1e-9):
    """float -> [n, d] when it is (within rounding) a small rational, else the sentinel [0, 0]."""
    try:
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return [0, 0]
        if x == int(x) and abs(x) < LIM:
            return [int(x), 1]
        f = Fraction(x).limit_denominator(maxden)
        if abs(float(f) - x) > tol * max(1.0, abs(x)) or abs(f.numerator) >= LIM:
            return [0, 0]
        return [f.numerator, f.denominator]
    except Exception:
        return [0, 0]


def fixed(x, scale):
    """float -> fixed-point integer; out-of-range or non-numbers become a huge marker."""
    try:
        x = float(x)
        if x != x:
            return LIM
        v = int(round(x * scale))
        return v if abs(v) < LIM else LIM
    except Exception:
        return LIM


class MachineryError(Exception):
    pass


class Check(object):
    """Context of one property check: scratch dir, counters, violations, evidence."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = TIER
        self.quick = TIER != "thorough"
        self.seed = SEED
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []      # list of dict
        self.known = []
        self.assumptions = []
        self.level = "model_checking"
        self.findings = load_findings(pid)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, extra=(), timeout=800, heap="3g", mc=True,
            allow_violation=False):
        """Run TLC on spec/<module>.tla; returns TlcResult.  Counts states/transitions."""
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers), "-config", cfgp] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta,
                             universal_newlines=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            raise MachineryError("TLC timeout on %s\n%s" % (module, out[-2000:]))
        r = TlcResult(out, p.returncode)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def tlc_parallel(self, jobs):
        """jobs: list of kwargs dicts for tlc(); run concurrently."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max_workers=8) as ex:
            return list(ex.map(lambda kw: self.tlc(**kw), jobs))

    def mc(self, module, cfg=None, **kw):
        """Exhaustive model checking of a design; a failure here is a machinery/spec error."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise MachineryError("model checking of %s failed:\n%s" % (module, r.out[-1500:]))
        self.notes.setdefault("model_checking", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "states": r.distinct, "generated": r.generated})
        return r

    def validate(self, module, cases, cfg=None, shards=None, env=None, timeout=800, heap="3g", relevant=None):
        """Trace validation: cases = list of JSON-able case records (each with 'id').
        The trace spec prints <<"BAD", caseid, clause, detail>> for every failed clause and must consume
        every line (POSTCONDITION)."""
        if not cases:
            return []
        shards = shards or (min(8, max(1, len(cases) // 20)))
        files = []
        for k in range(shards):
            part = cases[k::shards]
            if not part:
                continue
            fn = os.path.join(self.tmp, "%s_%d_%d.ndjson" % (module, self.traces, k))
            with open(fn, "w") as f:
                for c in part:
                    f.write(json.dumps(c) + "\n")
            files.append((fn, part))
        jobs = [dict(module=module, cfg=cfg, env=dict(env or {}, TRACE=fn), timeout=timeout, heap=heap) for fn, _ in files]
        res = self.tlc_parallel(jobs)
        bad = []
        for (fn, part), r in zip(files, res):
            got = r.bad()
            if not r.ok:
                # total verdict: a trace the specification cannot even evaluate is rejected, but only after
                # isolating the case so that the verdict names it
                bad.extend(self._isolate(module, cfg, env, part, r, timeout, heap))
            else:
                bad.extend(got)
        self.traces += len(cases)
        byid = {c["id"]: c for c in cases}
        for cid, clause, detail in bad:
            if relevant is not None and not relevant(clause):
                continue
            self.violation(byid.get(cid, {"id": cid}), clause, detail)
        return bad

    def _isolate(self, module, cfg, env, part, r, timeout, heap):
        if "Parsing or semantic analysis failed" in r.out:
            raise MachineryError(r.out[-3000:])
        if len(part) == 1:
            k = r.out.find("Error:")
            return [(part[0]["id"], "unevaluable", r.out[k:k + 1500] if k >= 0 else r.out[-1500:])]
        h = len(part) // 2
        out = []
        for sub in (part[:h], part[h:]):
            fn = os.path.join(self.tmp, "iso_%s_%d.ndjson" % (module, int(time.time() * 1e6)))
            with open(fn, "w") as f:
                for c in sub:
                    f.write(json.dumps(c) + "\n")
            rr = self.tlc(module, cfg, env=dict(env or {}, TRACE=fn), timeout=timeout, heap=heap)
            if rr.ok:
                out.extend(rr.bad())
            else:
                out.extend(self._isolate(module, cfg, env, sub, rr, timeout, heap))
                if len(out) > 3:
                    break
        return out

    # -- verdicts ----------------------------------------------------------
    def violation(self, case, clause, detail=""):
        key = case.get("key") or case.get("kind") or ""
        for f in self.findings:
            if f.get("status") == "open" and f.get("clause") == clause and f.get("key") == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append({"clause": clause, "detail": str(detail)[:2000], "case": case})

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x)
            self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000])

    def finish(self):
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": "thorough" if not self.quick else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        if self.violations:
            rp = os.path.join(evdir, "replay")
            os.makedirs(rp, exist_ok=True)
            fn = os.path.join(rp, "%s_%d.json" % (self.pid, self.seed))
            with open(fn, "w") as f:
                keep, per = [], {}
                for v in self.violations:
                    per[v["clause"]] = per.get(v["clause"], 0) + 1
                    if per[v["clause"]] <= 12:
                        keep.append(v)
                json.dump(keep, f, indent=1)
            seen = {}
            for v in self.violations:
                seen[v["clause"]] = seen.get(v["clause"], 0) + 1
            for c, k in sorted(seen.items()):
                print("  clause %s failed in %d case(s)" % (c, k))
            print("VIOLATION property=%s replay=%s" % (self.pid, fn))
            return 1
        stale = os.path.join(evdir, "replay", "%s_%d.json" % (self.pid, self.seed))
        if os.path.exists(stale):
            os.remove(stale)
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" %
              (self.pid, ev["tier"], self.states, self.traces, ev["wall_s"]))
        return 0


class TlcResult(object):
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out

    def printed(self, tag):
        """values printed as PrintT(<<tag, json string>>) -> list of parsed JSON."""
        res = []
        for m in re.finditer(r'^<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % re.escape(tag), self.out, re.M):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        return res

    def bad(self):
        return [(v[0], v[1], json.dumps(v[2]) if len(v) > 2 else "") for v in self.printed("BAD")]


def load_findings(pid):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [f for f in json.load(open(fn))["findings"] if f["property"] == pid]


def impl_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:" + e.get("PATH", "")
    e["PYTHONPATH"] = os.pathsep.join([REPO, os.path.join(VERIF, "harness"), "/opt/vp/compat"])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONWARNINGS"] = "ignore"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e.pop("OPENMDAO_TRACE", None)
    return e


def run_impl(chk, modfunc, jobs, nproc=8, timeout=600, per_job_timeout=60):
    """Run jobs (list of JSON-able) through <harness module>.<func>(job)->record in worker processes that import
    the code under test.  A job that hangs or kills its process yields {'id':..,'outcome':'hang'|'crash'}."""
    mod, func = modfunc.split(":")
    jobs = list(jobs)
    if not jobs:
        return []
    nproc = min(nproc, len(jobs))
    procs = []
    for k in range(nproc):
        part = jobs[k::nproc]
        fin = os.path.join(chk.tmp, "in_%s_%d_%d.json" % (func, k, int(time.time() * 1e6)))
        fout = fin + ".out"
        with open(fin, "w") as f:
            json.dump(part, f)
        scratch = tempfile.mkdtemp(dir=chk.tmp)
        procs.append(_Worker(mod, func, fin, fout, scratch, part, per_job_timeout))
    end = time.time() + timeout
    while any(not w.done for w in procs) and time.time() < end:
        for w in procs:
            w.poll()
        time.sleep(0.02)
    recs = []
    for w in procs:
        if not w.done:
            w.kill()
        recs.extend(w.collect())
    order = {j["id"]: i for i, j in enumerate(jobs)}
    recs.sort(key=lambda r: order.get(r["id"], 0))
    return recs


class _Worker(object):
    def __init__(self, mod, func, fin, fout, scratch, jobs, per):
        self.args = (mod, func, fin, fout)
        self.scratch, self.jobs, self.per = scratch, jobs, per
        self.extra = []
        self.skip = 0
        self.done = False
        self.start()

    def start(self):
        mod, func, fin, fout = self.args
        open(fout, "a").close()
        self.last = (os.path.getsize(fout), time.time())
        self.log = open(os.path.join(self.scratch, "log.txt"), "a")
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "harness", "worker.py"), mod, func, fin, fout, str(self.skip)],
                                  cwd=self.scratch, env=impl_env(), stdout=self.log, stderr=subprocess.STDOUT,
                                  start_new_session=True)

    def nout(self):
        with open(self.args[3]) as f:
            return sum(1 for l in f if l.endswith("\n"))

    def poll(self):
        if self.done:
            return
        sz = os.path.getsize(self.args[3])
        if sz != self.last[0]:
            self.last = (sz, time.time())
        rc = self.p.poll()
        hung = rc is None and time.time() - self.last[1] > self.per
        if hung:
            self.kill()
        if rc is not None or hung:
            n = self.nout()
            if n >= len(self.jobs):
                self.done = True
                return
            if rc == 4:
                tail = open(os.path.join(self.scratch, "log.txt")).read()[-3000:]
                raise MachineryError("harness worker failed: " + tail)
            with open(self.args[3], "a") as f:
                f.write(json.dumps({"id": self.jobs[n]["id"], "outcome": "hang" if hung else "crash"}) + "\n")
            self.skip = n + 1
            if self.skip >= len(self.jobs):
                self.done = True
            else:
                self.start()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except Exception:
            pass
        self.p.wait()

    def collect(self):
        self.log.close()
        with open(self.args[3]) as f:
            recs = [json.loads(l) for l in f if l.endswith("\n")]
        have = {r["id"] for r in recs}
        for j in self.jobs:
            if j["id"] not in have:
                recs.append({"id": j["id"], "outcome": "hang"})
        return recs
