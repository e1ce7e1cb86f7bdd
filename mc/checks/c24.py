import itertools, os, shutil, subprocess
import mc
mc.block_root()
import trackjob
from xboa.hit import Hit
from xboa.tracking import MultiTrack, TrackingBase
from xboa.tracking.tracking_process import ThisNodeProcess

MODES = ["ok", "raise", "exit0", "kill"]

class Scheduler(object):
    """Holds every worker until the schedule lets it run to its end."""
    def __init__(self): self.jobs, self.modes, self.polls, self.when = [], [], 0, None
    def release(self, k):
        j = self.jobs[k]
        if j["done"]: return
        if j["held"]: os.write(j["fds"][1], b"x")
        while os.read(j["fds"][0], 1) != b"": pass
        os.waitid(os.P_PID, j["pid"], os.WEXITED | os.WNOWAIT)
        j["done"] = True
    def poll(self):
        """One look at one job: the moment at which the environment may act."""
        if self.when is None: return
        self.polls += 1
        for k in range(len(self.jobs)):
            if self.polls > self.when[k % len(self.when)]: self.release(k)
    def close(self):
        for j in self.jobs: os.close(j["fds"][0]); os.close(j["fds"][1])

SCHED = None
class Job(ThisNodeProcess):
    def start(self):
        k = len(SCHED.jobs)
        mode = SCHED.modes[k] if k < len(SCHED.modes) else "ok"
        at_r, at_w = os.pipe()
        go_r, go_w = os.pipe()
        trackjob.GATE, trackjob.FAULT = (at_w, go_r, at_r, go_w), ("track", mode)
        try: ThisNodeProcess.start(self)
        finally:
            os.close(at_w); os.close(go_r)
            trackjob.GATE, trackjob.FAULT = None, None
        held = os.read(at_r, 1)
        SCHED.jobs.append({"fds": (at_r, go_w), "pid": self.proc.pid, "done": False, "held": held == b"g", "mode": mode, "job": self, "run": trackjob.RUN})
    def is_alive(self):
        if self.proc is not None and SCHED is not None: SCHED.poll()
        return ThisNodeProcess.is_alive(self)

def hits(n, first=1):
    # two of the hits are equal in all but where they stand
    return [Hit.new_from_dict({"event_number": max(1, first + i - (i == 2)), "z": 10.0 * (first + i), "px": 1.0, "pid": -13, "mass": 105.658}, "energy") for i in range(n)]
VARS = ("event_number", "station", "status", "z", "px", "energy", "pid", "particle_number")

class C24(mc.Check):
    pid = "C24"
    level = "schedule_exploration"
    technique = "stateless exploration of all completion schedules of the real workers, held at a gate and released by the schedule, against tracking hit by hit"
    rule = ("0-5 (thorough 7) hits over 1-4 processes; every completion order, every subset of jobs finished and every failing subset of jobs for the asynchronous calls, with the result "
            "asked for after each step; for the blocking call every placement of each job's end between the polls of up to two (three) rounds; two batches overlapping in every order")
    assumptions = ["the worker runs the installed xboa_tracking_process.py, forked instead of executed"]
    case_timeout = 60
    def setup(self):
        self.scratch = os.path.abspath("jobs")
        os.makedirs(self.scratch, exist_ok=True)
        subprocess.Popen = trackjob.ForkPopen
    def cases(self):
        T = self.thorough
        for n in range(0, 8 if T else 6): yield ["one", n]
        for n in range(0, 8 if T else 6):
            for p in range(1, 5):
                full = p <= 3
                for modes in itertools.product(range(4), repeat=p):
                    if not full and sum(m > 0 for m in modes) > (2 if T else 1): continue
                    orders = list(itertools.permutations(range(p)))
                    if not full and not T: orders = orders[::5]
                    if sum(m > 0 for m in modes) > 1 and not T: orders = orders[:1]
                    for o in orders: yield ["async", n, p, list(modes), list(o)]
        for p in (5, 6, 8):
            for n in range(p + 2): yield ["async", n, p, [0] * p, list(range(p))[::-1]]
        for n in (9, 13, 40, 101):
            yield ["one", n]
            for p in (1, 2, 3, 4):
                for modes in [[0] * p, [k % 4 for k in range(1, p + 1)]]:
                    for o in list(itertools.permutations(range(p)))[::3]: yield ["async", n, p, modes, list(o)]
                    yield ["block", n, p, modes, [(3 * k) % 4 for k in range(p)]]
                yield ["seq", n, p]
        for n in ((2, 4, 5) if T else (2, 4)):
            for p in (1, 2, 3):
                K = p * (3 if T else 2)
                for modes in itertools.product(range(4), repeat=p):
                    bad = sum(m > 0 for m in modes)
                    if bad > 1 and p == 3 and not T: continue
                    for when in itertools.product(range(0, K + 1, 1 if p < 3 or T or not bad else 3), repeat=p): yield ["block", n, p, list(modes), list(when)]
        for na in (1, 3):
            for nb in (0, 2, 3):
                for p in (1, 2):
                    for o in itertools.permutations(range(2 * p)):
                        for m in range(2 * p + 1): yield ["two", na, nb, p, m, list(o)]
        for n in (0, 1, 3):
            for p in (1, 2): yield ["seq", n, p]
    def run_case(self, case):
        global SCHED
        d = os.path.join(self.scratch, "j%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        SCHED = Scheduler()
        try: return getattr(self, case[0])(case, d, *case[1:])
        finally:
            trackjob.reap()
            SCHED.close()
            SCHED = None
            shutil.rmtree(d, ignore_errors=True)
    def multi(self, p, d, tag=5):
        j = Job(trackjob.Track(tag))
        try: os.rmdir(j.out_dir)
        except OSError: pass
        j.tmp_dir = d
        j.new_out_dir()
        return MultiTrack(p, j)
    def want(self, hs, run, tag=5):
        out = []
        for h in hs:
            o = h.deepcopy()
            o["z"], o["station"], o["status"], o["particle_number"] = h["z"] + 1000.0, run, tag, 1
            out.append([h, o])
        return out
    def same(self, case, got, want, *what):
        tup = lambda r: [[tuple(h[v] for v in VARS) for h in l] for l in r]
        mc.need(isinstance(got, list) and all(isinstance(l, list) for l in got), "not-lists", case, *what)
        mc.need(tup(got) == tup(want), "wrong-result", case, *what, [[(h["event_number"], h["z"], h["station"]) for h in l] for l in got], "want", [[(h["event_number"], h["z"], h["station"]) for h in l] for l in want])
    def dealt(self, case, first, hs, p):
        """The jobs share out the hits in order; returns the share of each."""
        jobs = SCHED.jobs[first:]
        mc.need(len(jobs) <= p, "too-many-processes", case, len(jobs))
        got = [h for j in jobs for h in j["job"].hit_list]
        mc.need([id(h) for h in got] == [id(h) for h in hs] or [h["z"] for h in got] == [h["z"] for h in hs], "hits-not-shared-out", case, [h["z"] for h in got])
        return [list(j["job"].hit_list) for j in jobs]
    def one(self, case, d, n):
        m = self.multi(2, d)
        hs = hits(n)
        trackjob.RUN = 3
        for k, h in enumerate(hs):
            got = m.track_one(h)
            self.same(case, [got], self.want([h], 3), "track_one", k)
            self.same(case, m.last, self.want([h], 3), "last", k)
        self.same(case, [hs], [hits(n)], "input")
        return [n] if n else None
    def async_(self, case, d, n, p, modes, order):
        SCHED.modes = [MODES[m] for m in modes]
        trackjob.RUN = 4
        m = self.multi(p, d)
        hs = hits(n)
        jobs = m.track_many_async(hs)
        share = self.dealt(case, 0, hs, p)
        mc.need(len(jobs) == len(share) and all(a is b["job"] for a, b in zip(jobs, SCHED.jobs)), "jobs-returned", case)
        obs = []
        for step in range(-1, p):
            if step >= 0 and order[step] < len(share): SCHED.release(order[step])
            for again in range(2):
                got = m.get_return_value()
                want = [r for s, j in zip(share, SCHED.jobs) if j["done"] and j["mode"] == "ok" for r in self.want(s, 4)]
                self.same(case, got, want, "step", step)
                self.same(case, m.last, want, "last", step)
            for j, sc in zip(jobs, SCHED.jobs): mc.need(j.is_alive() == (not sc["done"]), "alive", case, step)
            obs.append(len(got))
            mc.S.add("transitions")
            mc.seen([case[:4], sorted(order[:step + 1])])
        self.same(case, [hs], [hits(n)], "input")
        return obs
    def block(self, case, d, n, p, modes, when):
        SCHED.modes, SCHED.when = [MODES[m] for m in modes], when
        trackjob.RUN = 5
        m = self.multi(p, d)
        hs = hits(n)
        SCHED.polls = 0
        got = m.track_many(hs)
        mc.need(all(j["done"] for j in SCHED.jobs), "returned-before-jobs-ended", case)
        share = self.dealt(case, 0, hs, p)
        want = [r for s, j in zip(share, SCHED.jobs) if j["mode"] == "ok" for r in self.want(s, 5)]
        self.same(case, got, want, "track_many")
        self.same(case, m.last, want, "last")
        self.same(case, [hs], [hits(n)], "input")
        mc.seen(case)
        mc.S.add("transitions", SCHED.polls)
        return [case[1:], len(got), SCHED.polls]
    def two(self, case, d, na, nb, p, bad, order):
        """A second batch while the first is still running."""
        SCHED.modes = ["ok" if k != bad else "raise" for k in range(2 * p)]
        m = self.multi(p, d)
        a, b = hits(na), hits(nb, 20)
        trackjob.RUN = 6
        ja = list(m.track_many_async(a))
        sa = self.dealt(case, 0, a, p)
        cut = len(SCHED.jobs)
        trackjob.RUN = 7
        jb = list(m.track_many_async(b))
        sb = self.dealt(case, cut, b, p)
        obs = []
        for k in [None] + order:
            if k is not None and k < len(SCHED.jobs): SCHED.release(k)
            ok = lambda j: j["done"] and j["mode"] == "ok"
            got = m.get_return_value()
            self.same(case, got, [r for s, j in zip(sb, SCHED.jobs[cut:]) if ok(j) for r in self.want(s, 7)], "second batch", k)
            for i, (job, j) in enumerate(zip(ja + jb, SCHED.jobs)):
                try: r = job.get_return_value()
                except RuntimeError: r = None
                mc.need((r is not None) == ok(j), "result-lost" if ok(j) else "result-invented", case, k, i)
                if r is not None: self.same(case, r, self.want((sa + sb)[i], 6 if i < cut else 7), "job", i)
            obs.append(len(got))
            mc.seen([case[:5], k])
            mc.S.add("transitions")
        return obs
    def seq(self, case, d, n, p):
        """Blocking calls in turn, with different hits; a failing batch does not show an earlier one."""
        m = self.multi(p, d)
        obs = []
        for run, (k, mode) in enumerate([(n, "ok"), (n + 1, "ok"), (n, "raise"), (1, "ok"), (n, "kill"), (0, "ok"), (n, "ok")]):
            trackjob.RUN = 10 + run
            SCHED.when, SCHED.polls = [run % 3], 0
            first = len(SCHED.jobs)
            SCHED.modes = ["ok"] * first + [mode] * p
            hs = hits(k, 1 + 7 * run)
            got = m.track_many(hs)
            self.same(case, got, self.want(hs, 10 + run) if mode == "ok" else [], "batch", run)
            obs.append(len(got))
            mc.S.add("transitions")
        return obs
setattr(C24, "async", C24.async_)

if __name__ == "__main__": mc.main(C24)
