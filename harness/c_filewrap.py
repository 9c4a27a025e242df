"""C18: templates and parsed files.  Random files, delimiters, anchors and values; the generated file is read after
every write, then read back."""
import math, os, random, re
from common import run_impl

INT = re.compile(r"[+-]?\d+$")
FLT = re.compile(r"[+-]?((\d+\.\d*|\.\d+)([eEdD][+-]?\d+)?|\d+[eEdD][+-]?\d+)$")
NANS = "NaN nan NaN% NaNQ NaNS qNaN sNaN 1.#SNAN 1.#QNAN -1.#IND".split()


def canon(w):
    """what a word stands for: the documented grammar of numbers"""
    if INT.match(w):
        return {"t": "i", "v": str(int(w)), "f": repr(float(int(w)))}
    if FLT.match(w):
        f = repr(float(re.sub("[dD]", "E", w)))
        return {"t": "f", "v": f, "f": f}
    if w in NANS:
        return {"t": "f", "v": "nan", "f": "nan"}
    if w in ("Inf", "-Inf", "inf", "-inf"):
        f = repr(float(w.lower()))
        return {"t": "f", "v": f, "f": f}
    return {"t": "s", "v": w, "f": ""}


def cval(v):
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return {"t": "s", "v": str(v), "f": ""}
    if isinstance(v, (int, np.integer)):
        return {"t": "i", "v": str(int(v)), "f": repr(float(v))}
    if isinstance(v, (float, np.floating)):
        return {"t": "f", "v": repr(float(v)), "f": repr(float(v))}
    return {"t": "s", "v": str(v), "f": ""}


def learn(tab, text, delims=""):
    for w in re.findall(r"[0-9eE+\-.naifNAIF]+", text):
        tab[w] = canon(w)
    for w in re.split("[%s\n]+" % re.escape(delims + " \t"), text):
        if w:
            tab[w] = canon(w)


def rand_float(rng):
    return rng.choice([0.1 + 0.2, -3e-5, 1e22, 1.0 / 3, -2.5, 100.0, 1e-300, 6.02e23, -0.0, 1.2345678901234567e-8, 2.0 ** 60 + 3, -7e-12,
                       rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20), 5e-324, 1e16 + 2.0])


def rand_val(rng, numeric=False):
    r = rng.random()
    if r < .5:
        return rand_float(rng)
    if r < .7:
        return rng.randint(-2000, 2000)
    if r < .78:
        return rng.choice([float("inf"), -float("inf"), float("nan")])
    if numeric:
        return float(rng.randint(-9, 9))
    return rng.choice([True, False, "word", "two words", "", "a\\1b", "x,y", "\\g<0>"])


def rand_word(rng, delims):
    r = rng.random()
    if r < .3:
        return str(rng.randint(-99, 999))
    if r < .55:
        w = rng.choice(["1.5", "-2.25", "3e5", "-3e-05", "+4.0E+02", "1.5D+03", "-1.d2", ".5", "7.", "1e65", "2.5e-3", "0012", "+7", "-.25e1"])
    elif r < .62:
        w = rng.choice(["NaN", "Inf", "-Inf", "nan", "NaNQ", "1.#QNAN"])
    else:
        w = rng.choice(["abc", "x1", "Info", "nano", "3rd", "2x4", "A/B", "key_1", "False", "1.2.3", "e5", "Word", "end", "D2", "-flag", "v+1", "12-05"])
    return w if not any(c in w for c in delims) else "w%d" % rng.randint(0, 9)


def rand_line(rng, delims, i, anchors, numeric=False):
    seps = [c for c in delims if c != "\n"]
    n = rng.randint(1, 7)
    s = rng.choice(["", "", seps[0], seps[0] * 2])
    a = ""
    if rng.random() < .45:
        a = rng.choice(anchors)
    parts = ([a] if a else []) + [str(rng.choice([rng.randint(-9, 99), 0.5, 2.25, "-1.5e-3"])) if numeric else rand_word(rng, delims) for _ in range(n)]
    if a and rng.random() < .3:
        rng.shuffle(parts)
    for k, p in enumerate(parts):
        if k:
            s += "".join(rng.choice(seps) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        s += p
    return s + "\n"


ANCH = ["Anchor", "BEGIN", "KEY A", "CQUAD4"]


def gen_case(job):
    from openmdao.util.file_wrap import InputFileGenerator
    rng = random.Random(job["seed"])
    delims = rng.choice([" ", " ", ", ", " \t", ",", "; ", ",-;", "=,", "|^ ", "]["])
    lines = [rand_line(rng, delims, i, ANCH) for i in range(rng.randint(3, 9))]
    if rng.random() < .3:
        lines.insert(rng.randrange(len(lines)), "\n")
    with open("template.dat", "w") as f:
        f.writelines(lines)
    g = InputFileGenerator()
    g.set_template_file("template.dat")
    g.set_generated_file("out.dat")
    tab, ev = {}, []
    if delims != " ":
        g.set_delimiters(delims)
        ev.append({"op": "delims", "d": list(delims)})
    tokre = re.compile("[^%s\n]+" % re.escape(delims))

    def out():
        try:
            g.generate()
            t = open("out.dat").read()
        except Exception as e:
            t = "!" + type(e).__name__ + "\n"
        learn(tab, t, delims)
        return t.splitlines(True)
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        span = None
        n = len(g.data)
        here = g.current_row
        rel = rng.randrange(n) - here
        if r < .3:
            ok = True
            e = {"op": "anchor", "text": rng.choice(ANCH + ["Anchor", "nowhere", "1"]), "occ": rng.choice([1, 1, 1, 2, 3, -1, -1, -2, 0])}
            o = e["occ"]
            e["okocc"] = o != 0
            if rng.random() < .05:
                o, e["okocc"], e["occ"] = 1.5, False, 0
            try:
                if o == 1 and rng.random() < .5:
                    g.mark_anchor(e["text"])
                else:
                    g.mark_anchor(e["text"], o)
            except Exception:
                ok = False
            e["ok"] = ok
            ev.append(e)
            continue
        if r < .36:
            g.reset_anchor()
            ev.append({"op": "reset"})
            continue
        if r < .72:
            words = tokre.findall(g.data[here + rel])
            fld = rng.randint(1, len(words)) if words and rng.random() < .9 else len(words) + rng.randint(1, 2)
            v = rand_val(rng)
            e = {"op": "wvar", "row": rel, "field": fld, "val": cval(v)}
            spans = [m.span() for m in tokre.finditer(g.data[here + rel])]
            if fld <= len(spans):
                span = (here + rel, spans[fld - 1][0], len(g.data[here + rel]) - spans[fld - 1][1])
            call = lambda: g.transfer_var(v, rel, fld)
        elif r < .86:
            import numpy as np
            r1 = rng.randrange(n)
            r2 = min(n - 1, r1 + rng.choice([0, 0, 0, 1, 2]))
            w1 = tokre.findall(g.data[r1])
            w2 = tokre.findall(g.data[r2])
            f1 = rng.randint(1, max(1, len(w1)))
            lo = f1 if r1 == r2 else 1
            f2 = rng.randint(lo, max(lo, len(w2)))
            cap = f2 - f1 + 1 if r1 == r2 else len(w1) - f1 + 1 + sum(len(tokre.findall(g.data[k])) for k in range(r1 + 1, r2)) + f2
            cnt = max(1, cap + rng.choice([0, 0, 0, -1, 1, 2]))
            v = [rand_val(rng, True) for _ in range(cnt)]
            if rng.random() < .6:
                v = [float(x) for x in v]
            vv = np.array(v) if all(isinstance(x, float) for x in v) and rng.random() < .7 else v
            sep = rng.choice([", ", " ", ","])
            e = {"op": "warr", "r1": r1 - here, "r2": r2 - here, "f1": f1, "f2": f2, "sep": sep, "vals": [cval(x) for x in v]}
            if cnt > cap and (g.data[r2] != g.data[r2].rstrip() + "\n" or not w2 or "-" in delims):
                continue
            if "-" in delims or cap < 1 or any(w and w[0] in "+-.0123456789eEinfaNI" and False for w in w1):
                continue
            kw = {} if r1 == r2 and rng.random() < .5 else {"row_end": r2 - here}
            if sep != ", " or rng.random() < .5:
                kw["sep"] = sep
            call = lambda: g.transfer_array(vv, r1 - here, f1, f2, **kw)
        elif r < .95:
            import numpy as np
            r1 = rng.randrange(n)
            r2 = min(n - 1, r1 + rng.choice([0, 1, 1, 2]))
            m = min(len(tokre.findall(g.data[k])) for k in range(r1, r2 + 1))
            if m < 1 or "-" in delims:
                continue
            f1 = rng.randint(1, m)
            f2 = rng.randint(f1, m)
            v = np.array([[rand_float(rng) for _ in range(f1, f2 + 1)] for _ in range(r1, r2 + 1)])
            e = {"op": "warr2", "r1": r1 - here, "r2": r2 - here, "f1": f1, "f2": f2, "vals": [[cval(x) for x in q] for q in v]}
            call = lambda: g.transfer_2Darray(v, r1 - here, r2 - here, f1, f2)
        else:
            e = {"op": "wclear", "row": rel}
            call = lambda: g.clearline(rel)
        try:
            call()
            e["ok"] = True
        except Exception as x:
            e["ok"], e["err"] = False, repr(x)[:80]
        e["lines"] = out()
        if span and span[0] < len(e["lines"]):
            l = e["lines"][span[0]]
            w = l[span[1]:len(l) - span[2]]
            tab[w] = canon(w)
        ev.append(e)
    if rng.random() < .5 and rng.random() < .99:
        # the template itself is never touched
        ok = open("template.dat").read() == "".join(lines)
        if not ok:
            ev.append({"op": "wclear", "row": 0, "ok": False, "lines": out()})
    tab.setdefault("0", canon("0"))
    return {"id": job["id"], "kind": "gen", "outcome": "done", "lines": lines, "ev": ev, "canon": tab}


def parse_case(job):
    from openmdao.util.file_wrap import FileParser
    rng = random.Random(job["seed"])
    cols = rng.random() < .25
    delims = " \t" if cols else rng.choice([" \t", " \t", " ", ", ", " \t,=", ";, ", " |"])
    full, eol = rng.choice([("", "")] * 5 + [("C", "$"), ("", "#"), ("#", "!")])
    if job.get("known"):
        cols, delims, full, eol = False, " \t", "#", ""
    numeric = rng.random() < .5
    lines = [rand_line(rng, delims, i, ANCH, numeric) for i in range(rng.randint(3, 9))]
    lines = [l.replace(eol, "") if eol and rng.random() < .6 else l for l in lines]
    for _ in range(2):
        if full:
            lines.insert(rng.randrange(len(lines)), full + rng.choice(["", " ", "X Anchor "]) + rand_line(rng, delims, 0, ANCH))
        if eol:
            k = rng.randrange(len(lines))
            lines[k] = lines[k][:-1] + delims[0] + eol + " Anchor 5\n"
    if cols:
        lines = [l.replace("\t", " ") for l in lines]
    key = rng.choice(["Key1", "LOW PRESSURE", "Key 2"])
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
        lines.insert(rng.randrange(len(lines) + 1), key + delims[0] + delims[0].join(rand_word(rng, delims) for _ in range(3)) + "\n")
    if rng.random() < .2:
        lines[-1] = lines[-1][:-1] or "x"
    with open("parsed.dat", "w") as f:
        f.writelines(lines)
    p = FileParser(**{k: v for k, v in (("end_of_line_comment_char", eol or None), ("full_line_comment_char", full or None)) if v})
    other = FileParser() if rng.random() < .3 else None
    ev, tab = [], {}
    p.set_file("parsed.dat")
    if delims != " \t":
        if rng.random() < .3:
            p.set_delimiters(",")
        p.set_delimiters(delims)
        ev.append({"op": "delims", "d": list(delims)})
    if cols:
        if rng.random() < .4:
            p.set_delimiters(rng.choice([",", ";"]))
        p.set_delimiters("columns")
    if other is not None:
        other.set_delimiters(rng.choice([",", "columns", " \t"]))
    for l in lines:
        learn(tab, l, delims)
        learn(tab, l.replace(key, "KeyField"), delims)
    if job.get("known"):
        l = p.transfer_line(0)
        return {"id": job["id"], "kind": "parse", "key": "full-comment", "outcome": "done", "lines": lines, "canon": {"0": canon("0")}, "cols": cols,
                "full": full, "eol": eol, "ev": [{"op": "rline", "row": 0, "ok": True, "text": l}]}
    seen = [l for l in lines if not full or l[0] != full]
    n = len(p.data)
    tokre = re.compile("[^%s\n]+" % re.escape(delims))
    for _ in range(rng.randint(6, 16)):
        r = rng.random()
        here = p.current_row
        rel = rng.randrange(n) - here
        text = p.data[here + rel]
        nw = len(tokre.findall(text))
        if r < .25:
            e = {"op": "anchor", "text": rng.choice(ANCH + ["Anchor", "nowhere", key]), "occ": rng.choice([1, 1, 1, 2, 3, -1, -1, -2, 0])}
            o = e["occ"]
            e["okocc"] = o != 0
            if rng.random() < .05:
                o, e["okocc"], e["occ"] = 1.5, False, 0
            try:
                if o == 1 and rng.random() < .5:
                    p.mark_anchor(e["text"])
                else:
                    p.mark_anchor(e["text"], o)
                e["ok"] = True
            except Exception:
                e["ok"] = False
            ev.append(e)
            continue
        if r < .3:
            p.reset_anchor()
            ev.append({"op": "reset"})
            continue
        res = None
        if r < .36:
            e = {"op": "rline", "row": rel}
            call = lambda: p.transfer_line(rel)
        elif r < .66:
            if cols:
                L = max(1, len(text))
                a = rng.randint(1, L)
                b = rng.choice([0, rng.randint(a, L + 2)])
                e = {"op": "rvar", "row": rel, "field": a, "fe": b}
                for w in re.split("[ \t\n]+", text[a - 1:b or None]):
                    tab[w] = canon(w)
                call = (lambda: p.transfer_var(rel, a, b)) if b else (lambda: p.transfer_var(rel, a))
            else:
                f = rng.randint(1, nw) if nw and rng.random() < .9 else nw + 1
                e = {"op": "rvar", "row": rel, "field": f, "fe": 0}
                call = lambda: p.transfer_var(rel, f)
        elif r < .8 and not cols:
            f, occ, off = rng.randint(0, 4), rng.choice([1, 1, 2, 3, -1, -1, -2, -2, -3]), rng.choice([0, 0, 0, 1, -1])
            k = rng.choice([key] * 5 + ["nokey"])
            e = {"op": "rkey", "key": k, "field": f, "occ": occ, "off": off}
            call = lambda: p.transfer_keyvar(k, f, occ, off)
        else:
            r1 = rng.randrange(n)
            r2 = min(n - 1, r1 + rng.choice([0, 0, 1, 2]))
            two = rng.random() < .5
            lens = [len(p.data[k]) if cols else len(tokre.findall(p.data[k])) for k in range(r1, r2 + 1)]
            hi = max(1, min(lens) if two else lens[0])
            f1 = rng.randint(1, hi)
            if two:
                f2 = rng.randint(f1, hi) if rng.random() < .7 else 0
            else:
                lo = f1 if r1 == r2 or cols else 1
                f2 = rng.randint(lo, max(lo, lens[-1]))
            if cols:
                for k in range(r1, r2 + 1):
                    for w in re.split("[ \t\n]+", p.data[k][f1 - 1:f2 or None]):
                        tab[w] = canon(w)
            e = {"op": "rarr2" if two else "rarr", "r1": r1 - here, "r2": r2 - here, "f1": f1, "f2": f2}
            if two:
                call = (lambda: p.transfer_2Darray(r1 - here, f1, r2 - here, f2)) if f2 else (lambda: p.transfer_2Darray(r1 - here, f1, r2 - here))
            elif r1 == r2 and rng.random() < .5:
                call = lambda: p.transfer_array(r1 - here, f1, fieldend=f2)
            else:
                call = lambda: p.transfer_array(r1 - here, f1, r2 - here, f2)
        try:
            res = call()
            e["ok"] = True
        except Exception as x:
            e["ok"], e["err"] = False, repr(x)[:80]
        if e["op"] == "rline":
            e["text"] = res if isinstance(res, str) else repr(res)
        elif e["op"] in ("rvar", "rkey"):
            e["val"] = cval(res)
            if e["val"]["t"] == "s":
                e["val"]["v"] = e["val"]["v"].rstrip("\n")
        elif e["op"] == "rarr":
            e["vals"] = [cval(x)["f"] for x in res] if e["ok"] else []
        else:
            e["vals"] = [[cval(x)["f"] for x in q] for q in res] if e["ok"] else []
        ev.append(e)
    tab.pop("", None)
    tab.setdefault("0", canon("0"))
    return {"id": job["id"], "kind": "parse", "outcome": "done", "lines": lines, "ev": ev, "canon": tab, "cols": cols, "full": full, "eol": eol}


def run_job(job):
    return gen_case(job) if job["kind"] == "gen" else parse_case(job)


def check_C18(chk):
    chk.mc("FileWrapMC", workers=4, timeout=300)
    n = chk.n(400, 6000)
    jobs = [{"id": "w%d" % i, "seed": "%d-%d" % (chk.seed, i), "kind": "gen" if i % 2 else "parse"} for i in range(n)]
    jobs += [{"id": "k%d" % i, "seed": "k-%d" % i, "kind": "parse", "known": True} for i in range(2)]
    recs = run_impl(chk, "c_filewrap:run_job", jobs)
    kind = {j["id"]: j["kind"] for j in jobs}
    for r in recs:
        r.setdefault("ev", [{"op": "none"}])
        r.setdefault("lines", [""])
        r.setdefault("canon", {"0": canon("0")})
        for k in ("full", "eol"):
            r.setdefault(k, "")
        r.setdefault("kind", kind[r["id"]])
    chk.notes["histories"] = len(recs)
    chk.notes["operations"] = sum(len(r["ev"]) for r in recs)
    chk.sample(recs[1]["ev"][:3])
    chk.validate("FileWrapTrace", recs)
