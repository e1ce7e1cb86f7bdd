import itertools, json, os, shutil, subprocess, sys, tempfile
import mc
import pkgjob

NAMES = ["numpy", "scipy", "matplotlib", "ROOT", "multiprocessing"]
# everything in these parts needs numpy
NUMPY_PARTS = ["xboa.bunch.weighting", "xboa.algorithms.tune", "xboa.algorithms.decoupled_transfer_matrix"]
WHOLE = {}

def started(missing, first, back):
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        out = os.path.join(d, "out.json")
        p = subprocess.run([sys.executable, pkgjob.__file__, json.dumps([missing, first, back]), out], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, stdin=subprocess.DEVNULL)
        mc.need(p.returncode == 0 and os.path.exists(out), "interpreter ended early", missing, first, p.returncode, p.stdout.decode("utf-8", "replace")[-600:])
        with open(out) as f: return json.load(f)
    finally: shutil.rmtree(d, ignore_errors=True)
def whole():
    if not WHOLE: WHOLE.update(started([], "xboa", False))
    return WHOLE

class C46(mc.Check):
    pid = "C46"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of sets of missing packages and first imports, each in an interpreter of its own that imports every part and uses every feature, against the answers with all packages there"
    rule = ("all 32 sets of numpy, scipy, matplotlib, ROOT and multiprocessing missing, with each of 17 parts imported first, then all the others; for 2 (thorough all, both ways round) of the first imports some 80 features are used in turn, "
            "forwards or backwards: hits, files, bunches, moments, cuts, covariances, transformations, weightings, tracking, closed orbits, tunes, peaks, smoothing, processes and plots")
    assumptions = ["json is there (it is part of Python)", "the MAUS library is not there", "a package is either whole or missing"]
    case_timeout = 300
    def cases(self):
        for n in range(len(NAMES) + 1):
            for missing in itertools.combinations(NAMES, n):
                for k, first in enumerate(pkgjob.MODS):
                    for back in ([False, True] if self.thorough else [False] if k == 0 else [True] if k == 6 else [None]):
                        yield [list(missing), first, back]
    def run_case(self, case):
        missing, first, back = case
        out = started(missing, first, back)
        mc.S.add("transitions", len(pkgjob.MODS) + len(out["features"]))
        for m, e in sorted(out["import"].items()):
            mc.need("numpy" in missing and m in NUMPY_PARTS and e.split(":")[0] in ("ImportError", "ModuleNotFoundError"), "a part cannot be imported", case, m, e)
        if back is None: return "imports %d" % len(out["import"])
        gone = set(missing) | {"libMausCpp"}
        want = whole()["features"]
        refused = 0
        for name, (needs, how, value) in out["features"].items():
            ref = want[name]
            if name == "job" and "ROOT" not in missing: needs = ["multiprocessing"]
            lacking = gone & set(needs)
            if "libMausCpp" not in needs: mc.need(ref[1] == "ok", "feature fails with all packages there", name, ref)
            if how == "ok" and ref[1] == "ok" and repr(value) == repr(ref[2]): continue
            mc.need(lacking, "feature that does not need what is missing", case, name, how, value, "with all packages", ref[1], ref[2])
            mc.need(how == "ImportError", "feature without what it needs is not refused by an ImportError", case, name, how, value)
            refused += 1
        return "refused %d" % refused

if __name__ == "__main__": mc.main(C46)
