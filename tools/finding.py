"""add an entry to known_findings.json:  finding.py fixed PID COMMIT WHAT | finding.py open PID CLAUSE KEY WHAT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p))
k = next(k for k in d if isinstance(d[k], list))
if sys.argv[1] == "fixed":
    _, _, pid, commit, what = sys.argv
    d[k].append({"property": pid, "status": "fixed", "commit": commit, "what": what,
                 "text": "fixed: property=%s %s %s" % (pid, commit, what)})
else:
    _, _, pid, clause, key, what = sys.argv
    d[k].append({"property": pid, "status": "open", "clause": clause, "key": key, "what": what})
json.dump(d, open(p, "w"), indent=1)
