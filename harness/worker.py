"""Worker process: imports the code under test and runs jobs, one JSON record per line."""
import importlib, json, sys, traceback, warnings
warnings.simplefilter("ignore")
mod, func, fin, fout, skip = sys.argv[1:6]
try:
    f = getattr(importlib.import_module(mod), func)
    jobs = json.load(open(fin))
except Exception:
    traceback.print_exc()
    sys.exit(4)
with open(fout, "a") as out:
    for j in jobs[int(skip):]:
        try:
            rec = f(j)
        except Exception as exc:
            # An exception the harness did not anticipate is an observation about the code under test.
            tb = traceback.format_exc()
            print(tb)
            rec = {"id": j["id"], "outcome": "exc:" + type(exc).__name__, "trace": tb[-1500:]}
        out.write(json.dumps(rec) + "\n")
        out.flush()
