"""Writes /verif/DESIGN.md: the hand-written parts below, and per property what its check says it covers."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
INTRO = open(os.path.join(V, "mc/tools/design_intro.md")).read()
TAIL = open(os.path.join(V, "mc/tools/design_tail.md")).read()
ORACLE = {}
pid = None
for line in open(os.path.join(V, "mc/tools/design_oracles.md")):
    m = re.match(r"## (C\d+)", line)
    if m: pid = m.group(1); ORACLE[pid] = ""
    elif pid: ORACLE[pid] += line
fixes = {}
for line in open(os.path.join(V, "mc/tools/fix_props.txt")):
    if "|" in line:
        p, s = line.split("|", 1); fixes.setdefault(p.strip(), []).append(s.strip())
subjects = {}
for line in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
    if m: subjects.setdefault(m.group(1), []).append((m.group(2), m.group(3).strip()))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
out = [INTRO]
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); p = d["id"]
    src = open(os.path.join(V, "mc/checks/%s.py" % p.lower())).read()
    def f(n):
        m = re.search(r'^    %s = (\(.*?\)|".*?"|\[.*?\])$' % n, src, re.M | re.S)
        return eval(m.group(1)) if m else None
    out.append("### %s  %s\n" % (p, d["title"]))
    out.append("*Explored:* %s.\n" % f("rule").rstrip("."))
    out.append((ORACLE.get(p) or "*Oracle:* MISSING").strip() + "\n")
    if f("assumptions"): out.append("*Assumed:* %s.\n" % "; ".join(f("assumptions")))
    out.append("*Beyond the tests:* %s.\n" % d["why_tests_cant"].rstrip("."))
    if p in subjects:
        out.append("*Defects this check found, repaired:* %s.\n" % "; ".join("%s (%s)" % (s, h[:7]) for h, s in subjects[p]))
    if p in seeds:
        out.append("*Planted bugs caught:* %s.\n" % "; ".join("`%s`" % s for s, _ in seeds[p]))
out.append(TAIL)
out.append("| planted bug | property | needs |\n|---|---|---|")
for p in sorted(seeds):
    for s, d in seeds[p]:
        out.append("| %s | %s | %s |" % (s, p, str(d["needs"]).replace("|", "/").replace("\n", " ")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
