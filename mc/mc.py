"""Exploration engine shared by the checks.

A check module calls  main(Check subclass)  or  explore(...).  Cases are
JSON-able values enumerated deterministically; `run_case(case)` executes one
case on the real code, compares with the model and raises Bad(...) on a
disagreement, returning a hashable "outcome" used for the non-vacuity count.
Cases are sharded over forked workers; a worker that dies or hangs is reported
as a violation on the case it was running."""
import json, os, sys, time, traceback, signal, mmap, struct, hashlib, itertools, math

N_WORKERS = 8

def block_root():
    """xboa supports running without ROOT; most checks use that configuration
    (the ROOT bindings add seconds of start-up and no behaviour under test)."""
    sys.modules["ROOT"] = None

class Bad(Exception):
    """A disagreement between the code and the model."""
    def __init__(self, sig, msg):
        Exception.__init__(self, msg)
        self.sig, self.msg = sig, msg

class Hang(BaseException):
    pass

class Tolerated(Exception):
    pass

def need(cond, sig, *msg):
    if not cond:
        raise Bad(sig, " ".join(m if isinstance(m, str) else repr(m) for m in msg))

def close(a, b, rel=1e-9, abs_=1e-9):
    if a == b: return True
    try:
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b): return a == b
    except TypeError:
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))

def near(a, b, sig, *msg, rel=1e-9, abs_=1e-9):
    if not close(a, b, rel, abs_):
        raise Bad(sig, "got %r expected %r: " % (a, b) +
                  " ".join(m if isinstance(m, str) else repr(m) for m in msg))

class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.outcomes = set()
        self.trivial = 0
        self.extra = {}
        self.states = set()
        self.samples = []
        self.violations = []
        self.nviol = 0
    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n
    def dump(self):
        return {"evaluations": self.evaluations, "outcomes": list(self.outcomes),
                "trivial": self.trivial, "extra": self.extra, "states": list(self.states),
                "samples": self.samples, "violations": self.violations, "nviol": self.nviol}
    def merge(self, d):
        self.evaluations += d["evaluations"]
        self.outcomes.update(d["outcomes"])
        self.states.update(d["states"])
        self.trivial += d["trivial"]
        for k, v in d["extra"].items(): self.add(k, v)
        self.samples += d["samples"]
        self.violations += d["violations"]
        self.nviol += d["nviol"]

S = Stats()

def h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()

def seen(state):
    """Count a distinct model state; True when it is new (in this worker)."""
    k = h(state)
    if k in S.states: return False
    S.states.add(k)
    return True

class Check(object):
    pid = "C00"
    level = "model_checking"        # or exploration / fault_enumeration
    rule = ""
    assumptions = []
    case_timeout = 60               # seconds before a case counts as a hang
    workers = N_WORKERS
    exhaustive = True
    isolate = False
    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
    def setup(self): pass
    def cases(self): raise NotImplementedError
    def run_case(self, case): raise NotImplementedError

def _alarm(sig, frame):
    raise Hang()

def run_one(chk, case):
    """Run one case; record a violation if it disagrees."""
    S.evaluations += 1
    signal.setitimer(signal.ITIMER_REAL, chk.case_timeout)
    try:
        out = chk.run_case(case)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if out is None: S.trivial += 1
        else: S.outcomes.add(h(out))
        return None
    except Bad as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        v = {"property": chk.pid, "sig": e.sig, "msg": e.msg, "case": case}
    except Hang:
        v = {"property": chk.pid, "sig": "hang", "msg": "case did not finish in %ss"
             % chk.case_timeout, "case": case}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f for f in tb if "/xboa/" in f.filename]
        name = where[-1].name if where else tb[-1].name
        v = {"property": chk.pid, "sig": "exception:%s:%s" % (type(e).__name__, name),
             "msg": traceback.format_exc()[-3000:], "case": case}
    signal.setitimer(signal.ITIMER_REAL, 0)
    S.nviol += 1
    if sum(1 for w in S.violations if w["sig"] == v["sig"]) < 2:
        S.violations.append(v)
    return v

def quiet():
    """xboa prints progress on stdout; keep the log small."""
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)

def worker(chk, i, n, crumb, out, deadline):
    global S
    S = sys.modules[__name__].S = Stats()
    signal.signal(signal.SIGALRM, _alarm)
    quiet()
    complete = True
    sampled = 0
    for k, case in enumerate(chk.cases()):
        if k % n != i: continue
        if time.time() > deadline:
            complete = False
            break
        crumb[i * 8:i * 8 + 8] = struct.pack("<q", k)
        v = run_one(chk, case)
        if sampled < 1 and v is None:
            S.samples.append(case)
            sampled += 1
        if S.nviol >= 200:
            complete = False
            break
    if hasattr(chk, "finish_worker"): chk.finish_worker()
    d = S.dump()
    d["complete"] = complete
    with open(out, "w") as f: json.dump(d, f, default=repr)
    os._exit(0)

def main(cls):
    sys.modules.setdefault("mc", sys.modules[__name__])
    tier = os.environ.get("VERIF_TIER", "quick")
    report = os.environ["MC_REPORT"]
    replay = os.environ.get("MC_REPLAY")
    chk = cls(tier)
    rep = {"level": chk.level, "violations": [], "coverage": {}, "assumptions": list(chk.assumptions)}
    try:
        try:
            chk.setup()
        except Bad as e:
            S.violations.append({"property": chk.pid, "sig": e.sig, "msg": e.msg, "case": "setup"})
        except Exception as e:
            where = [f for f in traceback.extract_tb(sys.exc_info()[2]) if "/tree/xboa/" in f.filename]
            if not where: raise
            S.violations.append({"property": chk.pid, "sig": "exception:%s:%s" % (type(e).__name__, where[-1].name),
                                 "msg": traceback.format_exc()[-3000:], "case": "setup"})
        if replay:
            signal.signal(signal.SIGALRM, _alarm)
            v = json.load(open(replay))
            run_one(chk, v["case"])
            rep["violations"] = S.violations
            rep["coverage"] = {"evaluations": S.evaluations}
            json.dump(rep, open(report, "w"), default=repr)
            return
        complete = fork_all(chk)
        for extra in getattr(chk, "extra_runs", lambda: [])():
            extra()
    except Exception:
        rep["harness_error"] = traceback.format_exc()
        json.dump(rep, open(report, "w"), default=repr)
        return
    cov = rep["coverage"]
    nontriv = len(S.outcomes)
    if chk.level == "model_checking":
        cov["states"] = len(S.states) or nontriv
        cov["transitions"] = S.extra.pop("transitions", S.evaluations)
        cov["traces_validated_against_impl"] = S.evaluations
        cov["distinct_outcomes"] = nontriv
    else:
        cov["evaluations"] = S.evaluations
        cov["distinct_nontrivial"] = nontriv
    cov["rule"] = chk.rule
    cov["samples"] = S.samples[:6]
    cov["exhaustive"] = bool(complete and chk.exhaustive)
    cov.update(S.extra)
    order = {}
    for v in S.violations: order.setdefault(v["sig"], []).append(v)
    vs = []
    for sig in order:
        vs.append(min(order[sig], key=lambda v: len(json.dumps(v["case"], default=repr))))
    rep["violations"] = vs
    rep["coverage"]["violating_cases"] = S.nviol
    min_out = getattr(chk, "min_outcomes", 2)
    if not vs and nontriv < min_out:
        rep["harness_error"] = "vacuous: only %d distinct outcomes" % nontriv
    json.dump(rep, open(report, "w"), default=repr)

def fork_all(chk):
    n = chk.workers
    crumb = mmap.mmap(-1, 8 * n)
    base = os.environ["XBOA_SCRATCH"]
    deadline = time.time() + (600 if chk.tier == "quick" else 3 * 3600)
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for i in range(n):
        crumb[i * 8:i * 8 + 8] = struct.pack("<q", -1)
        pid = os.fork()
        if pid == 0:
            try:
                worker(chk, i, n, crumb, os.path.join(base, "w%d.json" % i), deadline)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(9)
        pids[pid] = i
    complete = True
    crashed = []
    while pids:
        pid, status = os.wait()
        if pid not in pids: continue
        i = pids.pop(pid)
        path = os.path.join(base, "w%d.json" % i)
        if os.path.exists(path):
            d = json.load(open(path))
            complete = complete and d["complete"]
            S.merge(d)
        else:
            k = struct.unpack("<q", crumb[i * 8:i * 8 + 8])[0]
            crashed.append((i, k, status))
    for i, k, status in crashed:
        complete = False
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        if sig == signal.SIGKILL:
            raise RuntimeError("worker %d was killed (out of memory?)" % i)
        if sig is None and os.WEXITSTATUS(status) == 9:
            raise RuntimeError("worker %d failed outside a case, see log" % i)
        case = next(itertools.islice(chk.cases(), k, None)) if k >= 0 else "before the first case"
        S.nviol += 1
        S.violations.append({"property": chk.pid, "sig": "crash",
                             "msg": "the process died (status %s) while running this case" % status,
                             "case": case})
    return complete
