"""Writes /verif/MANIFEST.json from the check files present in mc/checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
REASON = {}
for pid in props:
    path = os.path.join(V, "mc", "checks", pid.lower() + ".py")
    if not os.path.exists(path) or pid in REASON:
        na.append({"property": pid, "reason": REASON.get(pid, "no check built yet")})
        continue
    src = open(path).read()
    level = re.search(r'^    level = "(\w+)"', src, re.M).group(1)
    def field(name):
        m = re.search(r'^    %s = (\(.*?\)|".*?")$' % name, src, re.M | re.S)
        return eval(m.group(1)) if m else None
    tech = field("technique") or "bounded exhaustive exploration of the real code against a reference model"
    note = field("note") or ("Every case of the bounded space described in the evidence file's rule is executed on a fresh build of "
             "/repo and compared with an independent reference model; nothing is claimed beyond the bounds.")
    checks.append({"property": pid, "quick_cmd": "/opt/venv/bin/python mc/run.py %s quick" % pid,
                   "thorough_cmd": "/opt/venv/bin/python mc/run.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check builds /repo's working tree in a scratch directory (about 2 s) and explores it there; no hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
