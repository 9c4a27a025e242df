"""C19: external codes.  Real commands (shell scripts) are run through an ExternalCode component in a scratch directory;
every script records its process, what it saw and what it wrote."""
import os, random, shutil, signal, tempfile, time
from common import run_impl

FILES = ["a.in", "b.in", "p.out", "q.out"]
LONG = 30000


def script(b, k, top):
    """the shell script of run k: records itself, writes what it is told to, takes its time, ends as told"""
    s = []
    if b["stub"]:
        s.append("trap '' TERM")
    s.append("echo $$ >> %s/pids" % top)
    s.append("echo %d >> %s/ran.log" % (k, top))
    s.append('printf "%%s|%%s|%%s" "$VP_A" "$VP_B" "$(pwd -P)" > %s/saw.%d' % (top, k))
    if b["reads"]:
        s.append("cat > %s/stdin.%d" % (top, k))
    if b["helper"] == "plain":
        s.append("(sleep 60 > /dev/null 2>&1 < /dev/null) & echo $! >> %s/pids" % top)
    elif b["helper"] == "stubborn":
        s.append("(trap '' TERM; sleep 60; sleep 60) > /dev/null 2>&1 < /dev/null & echo $! >> %s/pids" % top)
    for f in b["makes"]:
        s.append("echo %d > %s" % (k, f))
    if b["says"]:
        s.append("printf 'out-%d'" % k)
        s.append("printf 'err-%d%s' >&2" % (k, "\\377\\376" if b["bytes"] else ""))
    if b["dur"]:
        # one that ignores being told to end does not end early when its sleep is killed
        s.append("sleep %.2f%s" % (b["dur"] / 1000., " ; sleep %.2f" % (b["dur"] / 1000.) if b["stub"] and b["dur"] == LONG else ""))
    for f in b["later"]:
        s.append("echo %d > %s" % (k, f))
    s.append("kill -%d $$; sleep 5" % -b["status"] if b["status"] < 0 else "exit %d" % b["status"])
    return "\n".join(s) + "\n"


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in ("Z", "X")
    except (OSError, IOError):
        return False


def pids(top):
    try:
        with open(top + "/pids") as f:
            return [int(x) for x in f.read().split()]
    except (OSError, IOError):
        return []


def text(path):
    try:
        with open(path, "rb") as f:
            return f.read().decode("latin-1")
    except (OSError, IOError):
        return "none"


def run_job(job):
    top = os.path.realpath(tempfile.mkdtemp(prefix="vp-ext-"))
    home = os.getcwd()
    mine = set()
    try:
        os.chdir(top)
        return history(job, top, mine)
    finally:
        os.chdir(home)
        # whatever is left of the commands is ended here, not by the code under test
        for p in set(pids(top)) | mine:
            try:
                if os.getpgid(p) != os.getpgid(0):
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(top, ignore_errors=True)


def history(job, top, mine):
    from openmdao.api import Problem, Group, IndepVarComp, ExternalCode, AnalysisError
    rng = random.Random(job["s"])
    os.environ["VP_A"], os.environ["VP_B"] = "outer", "inherited"
    comp = ExternalCode()
    comp.add_param("x", 0.0)
    comp.add_output("y", 0.0)
    root = Group()
    root.add("p", IndepVarComp("x", 1.0))
    where = rng.choice(["root", "root", "comp", "group", "both"])
    work = top
    if where in ("group", "both"):
        g = root.add("g", Group())
        g.directory = "gd"
        g.create_dirs = True
        g.add("e", comp)
        work = os.path.join(work, "gd")
        root.connect("p.x", "g.e.x")
    else:
        root.add("e", comp)
        root.connect("p.x", "e.x")
    if where in ("comp", "both"):
        comp.directory = "cd"
        comp.create_dirs = True
        work = os.path.join(work, "cd")
    prob = Problem(root=root)
    prob.setup(check=False)
    ev = []
    some = lambda pool, p: sorted(f for f in pool if rng.random() < p)
    need, give, hard = some(FILES[:2], .4), some(FILES[2:], .5), rng.random() < .5
    poll = 0.0
    for k in range(1, rng.randint(3, 5) + 1):
        # what is there, and what is asked for, may change between runs
        for f in FILES:
            path = os.path.join(work, f)
            r = rng.random()
            if f in FILES[:2] and r < (.75 if f in need else .3) or f in FILES[2:] and r < .1:
                with open(path, "w") as fd:
                    fd.write("there")
            elif r > .6 and os.path.exists(path):
                os.remove(path)
        if rng.random() < .3:
            need = some(FILES[:2], .5)
        if rng.random() < .3:
            give = some(FILES[2:], .5)
        if rng.random() < .4:
            hard = not hard
        if rng.random() < .3:
            poll = rng.choice([0.0, .02, .05, .15, .35])
        r = rng.random()
        cmd = "given" if r < .9 else rng.choice(["empty", "unknown"])
        b = {"dur": 0, "status": 0, "makes": some(FILES[2:], .3), "later": some(FILES[2:], .6), "stub": False, "helper": "none",
             "reads": rng.random() < .5, "says": False, "bytes": rng.random() < .25}
        if rng.random() < .35:
            b["status"] = rng.choice([1, 2, 3, 77, 126, 127, 200, 255, -9, -15, -11, -6])
        limit = 0
        r = rng.random()
        if r < .35:
            limit = rng.choice([100, 200, 300, 400])
            b["dur"] = rng.choice([LONG, LONG, 1600 if poll < .3 else LONG])
            b["stub"] = b["dur"] == LONG and rng.random() < .4
            b["helper"] = rng.choice(["none", "plain", "stubborn"])
        elif r < .5:
            limit, b["dur"] = rng.choice([(5000, 0), (5000, 250), (3000, 1500)])
        elif r < .6:
            b["dur"] = 250
        if b["dur"] == LONG and b["status"] < 0:
            b["status"] = 1
        envs = rng.choice([{}, {"VP_A": "own%d" % k}, {"VP_A": "own%d" % k, "VP_B": "mine"}, {"VP_B": "mine"}])
        src = script(b, k, top)
        # streams
        inp = rng.choice(["null", "file"])
        out = rng.choice(["file", "null", "handle"])
        err = rng.choice(["file", "default", "stdout", "null"])
        b["says"] = True
        src = script(b, k, top)
        form = rng.choice(["inline", "script"])
        if form == "script":
            with open(top + "/s%d.sh" % k, "w") as fd:
                fd.write("#!/bin/sh\n" + src)
            os.chmod(top + "/s%d.sh" % k, 0o755)
            given = rng.choice([["sh", top + "/s%d.sh" % k], [top + "/s%d.sh" % k]])
        else:
            given = ["sh", "-c", src]
        comp.options["command"] = {"given": given, "empty": [], "unknown": ["no-such-command-%d" % k, "x"]}[cmd]
        comp.options["env_vars"] = dict(envs)
        comp.options["timeout"] = limit / 1000.
        comp.options["poll_delay"] = poll
        comp.options["external_input_files"] = list(need)
        comp.options["external_output_files"] = list(give)
        comp.options["fail_hard"] = hard
        with open(top + "/feed", "w") as fd:
            fd.write("fed%d" % k)
        comp.stdin = {"null": comp.DEV_NULL, "file": top + "/feed"}[inp]
        handle = None
        if out == "handle":
            handle = open(top + "/o.txt", "w")
        comp.stdout = {"file": "o.txt", "null": comp.DEV_NULL, "handle": handle}[out]
        opath = os.path.join(work if out == "file" else top, "o.txt")
        comp.stderr = {"file": "e.txt", "default": "error.out", "stdout": comp.STDOUT, "null": comp.DEV_NULL}[err]
        epath = os.path.join(work, {"file": "e.txt", "default": "error.out"}.get(err, "none"))
        before = [f for f in FILES if os.path.exists(os.path.join(work, f))]
        outer, cwd, old = dict(os.environ), os.getcwd(), set(pids(top))
        exc, soft = "", False
        t0 = time.time()
        try:
            prob.run()
        except Exception as e:
            exc, soft = type(e).__name__, isinstance(e, AnalysisError)
        took = int(1000 * (time.time() - t0))
        if handle:
            handle.close()
        new = set(pids(top)) - old
        mine |= new
        late = cmd == "given" and set(need) <= set(before) and limit and b["dur"] > limit
        left = []
        if late:
            end = time.time() + 1.5
            left = [p for p in new if alive(p)]
            while left and time.time() < end:
                time.sleep(.02)
                left = [p for p in left if alive(p)]
        rc = comp.return_code
        saw = text(top + "/saw.%d" % k).split("|")
        # what the streams must hold when the command has ended by itself
        wantout, wanterr = "out-%d" % k, "err-%d%s" % (k, "\xff\xfe" if b["bytes"] else "")
        if err == "stdout":
            wantout += wanterr
        e = {"op": "run", "k": k, "cfg": {"cmd": cmd, "need": need, "give": give, "limit": limit, "hard": hard},
             "b": {"dur": b["dur"], "status": b["status"], "makes": b["makes"], "later": b["later"]},
             "before": before, "after": [f for f in FILES if os.path.exists(os.path.join(work, f))],
             "exc": exc, "rc": int(rc) if isinstance(rc, int) else -55555555, "took": took,
             "started": text(top + "/ran.log").split().count(str(k)), "left": len(left),
             "saw": saw if len(saw) == 3 else [], "want": [envs.get("VP_A", "outer"), envs.get("VP_B", "inherited"), work],
             "streams": [], "parent": dict(os.environ) == outer and os.getcwd() == cwd, "stub": b["stub"], "helper": b["helper"]}
        if b["reads"]:
            e["streams"].append(["in", "fed%d" % k if inp == "file" else "", text(top + "/stdin.%d" % k)])
        if out != "null":
            e["streams"].append(["out", wantout, text(opath)])
        if err in ("file", "default"):
            e["streams"].append(["err", wanterr, text(epath)])
        ev.append(e)
        # an earlier run must not provide what a later one has to
        for p in (opath, epath):
            if os.path.exists(p):
                os.remove(p)
        for p in new:
            if alive(p):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
    return {"id": job["id"], "outcome": "done", "ev": ev}


def check_C19(chk):
    chk.mc("ExtCodeMC", workers=4, timeout=400)
    jobs = [{"id": "h%d" % i, "s": "%s-%d" % (chk.seed, i)} for i in range(chk.n(200, 3000))]
    recs = run_impl(chk, "c_ext:run_job", jobs, nproc=14, per_job_timeout=150)
    for r in recs:
        r.setdefault("ev", [])
    chk.notes["histories"] = len(recs)
    runs = [e for r in recs for e in r["ev"]]
    chk.notes["runs"] = len(runs)
    chk.notes["timed out"] = sum(1 for e in runs if e["cfg"]["limit"] and e["b"]["dur"] > e["cfg"]["limit"])
    chk.sample(recs[0])
    chk.validate("ExtCodeTrace", recs)
