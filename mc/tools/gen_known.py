"""Regenerate the fixed: lines of known_findings.txt from /repo's fix commits."""
import subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PROP = [("Hitcore.set leaves", "C01"), ("set the global weight after", "C06"), ("look up a hit's global", "C03"),
 ("WeightContext.get_weight", "C04"), ("currently active weight", "C05"), ("internal covariance matrix with None", "C10"),
 ("set_covariance_matrix recal", "C10"), ("keep hits and bunchcore", "C07"), ("moment uses the bunch mean", "C09"),
 ("deep copy a bunch", "C06"), ("compare hits of bunches", "C06"), ("conditional_remove counts", "C12"),
 ("honour the geometric", "C10"), ("mass_shell_condition('p')", "C13"), ("restore the pid", "C19"),
 ("a word that is not a number", "C17"), ("g4beamline length unit", "C15"), ("comparator in hit_write_user", "C16"),
 ("user comment", "C15"), ("histogram limits", "C20"), ("fit_ellipse normalises", "C30"), ("MAUS json", "C37"), ("report out-of-range Bunchcore", "C08"), ("keep a hit alive", "C08"),
 ("release temporary python", "C08")]
EXTRA = os.path.join(V, "mc", "tools", "fix_props.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if "|" in l: PROP.append(tuple(reversed([s.strip() for s in l.split("|", 1)])))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
fixed = []
for l in log.splitlines():
    hsh, subj = l.split(" ", 1)
    if not subj.startswith("fix:"): continue
    p = [b for a, b in PROP if a in subj]
    assert len(p) == 1, (subj, p)
    fixed.append("fixed: property=%s %s %s" % (p[0], hsh, subj[5:]))
path = os.path.join(V, "known_findings.txt")
known = [l for l in open(path).read().splitlines() if l.startswith("known:")] if os.path.exists(path) else []
open(path, "w").write("\n".join(known + fixed) + "\n")
