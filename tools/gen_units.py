"""Authoring aid: write spec/UnitLib.tla (definitions of the units as products of powers, numeric factors as natural
logarithms in millionths) from a unit library file.  Run by hand; the result is reviewed and committed, and is from
then on the reference, whatever the library file says."""
import ast, math, sys
sec, out, base, pre = None, [], [], []
for l in open(sys.argv[1]):
    l = l.split("#")[0].strip()
    if not l: continue
    if l[0] == "[": sec = l[1:-1]; continue
    k, v = [x.strip() for x in l.split(":", 1)]
    if sec == "prefixes": pre.append((k, float(v.split(",")[0])))
    elif sec == "base_units": base.append(v)
    else:
        f = [x.strip() for x in v.split(",")]
        if len(f) == 4: out.append((k, f[1], (f[0], f[2])))
        else: out.append((k, f[0], None))

def ev(n):
    if isinstance(n, ast.Expression): return ev(n.body)
    if isinstance(n, ast.Constant): return float(n.value), {}
    if isinstance(n, ast.Name): return (math.pi, {}) if n.id == "pi" else (1.0, {n.id: 1})
    if isinstance(n, ast.UnaryOp): a = ev(n.operand); return -a[0], a[1]
    a, b = ev(n.left), ev(n.right)
    if isinstance(n.op, ast.Mult): s = 1
    elif isinstance(n.op, ast.Div): s = -1
    else:
        p = b[0]; return a[0] ** p, {k: int(v * p) for k, v in a[1].items()}
    d = dict(a[1])
    for k, v in b[1].items(): d[k] = d.get(k, 0) + s * v
    return a[0] * b[0] ** s, {k: v for k, v in d.items() if v}
mu = lambda x: int(round(math.log(x) * 1e6))
L = ["------------------------------ MODULE UnitLib ------------------------------",
     "(* Reference definitions of the units (generated once by tools/gen_units.py, reviewed against the SI brochure).",
     "   D(l, parts): numeric factor exp(l/10^6) times the named units to the given powers. *)",
     "EXTENDS Integers, Sequences, TLC", "D(l, p) == [l |-> l, p |-> p]",
     "BaseUnits == <<%s>>" % ", ".join('"%s"' % b for b in base), "Prefixes ==",
     "  " + " @@\n  ".join(" @@ ".join('"%s" :> %d' % (k, mu(v)) for k, v in pre[i:i + 6]) for i in range(0, len(pre), 6)),
     "Defs =="]
rows = ['"unitless" :> D(0, <<>>)']
for k, e, off in out:
    if k in ("sigma", "Ken"): continue       # not what their comments say they are; no meaning is claimed for them
    f, d = ev(ast.parse(e, mode="eval"))
    if off:
        f *= float(off[0])
    rows.append('"%s" :> D(%d, <<%s>>)' % (k, mu(f), ", ".join('<<"%s", %d>>' % kv for kv in d.items())))
# split to keep expressions shallow
n = 30
parts = [rows[i:i + n] for i in range(0, len(rows), n)]
L[-1] = "\n".join("Defs%d ==\n  %s" % (i, " @@\n  ".join(p)) for i, p in enumerate(parts))
L.append("Defs == " + " @@ ".join("Defs%d" % i for i in range(len(parts))))
L += ["\\* temperature scales as exact affine maps to kelvin: kelvin = (x + o) * f",
      'Affine == [K |-> [f |-> <<1, 1>>, o |-> <<0, 1>>], degK |-> [f |-> <<1, 1>>, o |-> <<0, 1>>],',
      '           degC |-> [f |-> <<1, 1>>, o |-> <<5463, 20>>], degR |-> [f |-> <<5, 9>>, o |-> <<0, 1>>],',
      '           degF |-> [f |-> <<5, 9>>, o |-> <<45967, 100>>]]',
      'OffsetUnits == {"degC", "degF"}', "=" * 77]
open("/verif/spec/UnitLib.tla", "w").write("\n".join(L) + "\n")
