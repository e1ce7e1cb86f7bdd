import itertools, os, shutil, signal, stat, subprocess, sys, time
import mc
mc.block_root()
import numpy
import trackjob
from xboa.hit import Hit
from xboa.tracking.tracking_process import ThisNodeProcess, BSubProcess, TrackingProcess

LISTS = {"A": [1, 2], "B": [7], "E": []}
OPS = ["setA", "setB", "ok", "raise", "exit0", "pause", "release", "kill", "terminate"]
PRIOR = ["fresh", "afterok", "afterraise", "afterkill", "afterreset"]

def hits(name):
    out = []
    for e in LISTS[name]: out.append(Hit.new_from_dict({"event_number": e, "z": 10.0 * e, "px": 1.0, "pid": -13, "mass": 105.658}, "energy"))
    return out

class Job(object):
    """The real job and the model of what may be observed of it."""
    def __init__(self, tag, scratch):
        self.tag = tag
        self.p = ThisNodeProcess(trackjob.Track(tag))
        try: os.rmdir(self.p.out_dir)
        except OSError: pass
        self.p.tmp_dir = scratch
        self.p.new_out_dir()
        self.list = None          # last list given
        self.state = "new"        # new, held, done
        self.result = None        # what the ended run must give (None: nothing)
        self.maybe = False        # the ended run may, or may not, have left its result
        self.given = None
        self.run = None
        self.fds = None
    def start(self, case, fault, run):
        """Start; follow the worker to where it waits or ends."""
        at_r, at_w = os.pipe()
        go_r, go_w = os.pipe()
        trackjob.GATE, trackjob.FAULT, trackjob.RUN = (at_w, go_r, at_r, go_w), fault, run
        try: self.p.start()
        finally:
            os.close(at_w); os.close(go_r)
            trackjob.GATE, trackjob.FAULT = None, None
        self.close()
        self.fds, self.given, self.run, self.fault = (at_r, go_w), self.list, run, fault
        self.state = "held"
        self.follow()
    def follow(self):
        got = os.read(self.fds[0], 1)
        if got == b"":
            os.waitid(os.P_PID, self.p.proc.pid if self.p.proc is not None else self.p.pid, os.WEXITED | os.WNOWAIT)
            self.state = "done"
            if self.given is not None: self.result = (self.given, self.run)
        self.where = got
    def go(self):
        os.write(self.fds[1], b"x")
        self.follow()
    def close(self):
        if self.fds: os.close(self.fds[0]); os.close(self.fds[1])
        self.fds = None
    def want(self, given, run):
        out = []
        for h in hits(given):
            o = h.deepcopy()
            o["z"], o["station"], o["status"], o["particle_number"] = h["z"] + 1000.0, run, self.tag, 1
            out.append([h, o])
        return out
    def observe(self, case, what, deliver):
        """deliver: "must", "may" or "no" result of the current run."""
        alive = self.p.is_alive()
        mc.need(bool(alive) == (self.state == "held"), "running", case, what, "reported", alive, "model", self.state)
        try: got = self.p.get_return_value()
        except RuntimeError: got = None
        if self.state != "done":
            mc.need(got is None, "result-of-unfinished-job", case, what, self.state)
        elif got is None: mc.need(deliver != "must", "result-lost", case, what)
        else:
            mc.need(deliver != "no", "result-invented", case, what)
            want = self.want(*self.result)
            mc.need(len(got) == len(want), "partial-result", case, what, len(got), len(want))
            for a, b in zip(got, want):
                mc.need(len(a) == 2 and a[0] == b[0] and a[1] == b[1], "wrong-result", case, what, [h["event_number"] for h in a], [h["station"] for h in a], "run", self.run)
                mc.need(all(x[v] == y[v] for x, y in zip(a, b) for v in ("event_number", "station", "status", "z")), "wrong-result", case, what, "run", self.run, [h["station"] for h in a])
            # the result is the caller's own; what the job says next does not depend on it
            for a in got: a[-1]["z"] += 1.0
            del got[:1]

class C23(mc.Check):
    pid = "C23"
    level = "fault_enumeration"
    technique = "exhaustive exploration of job histories and worker crash points on the real code, with the worker's every file operation and byte as a crash point"
    rule = ("all sequences of up to 4 (thorough 5) operations on a job (give hits, start with a worker that succeeds, fails, leaves without "
            "output or is held in mid-output, release, kill, terminate), observed after every step; after 5 kinds of earlier run, a kill and a hold at every file operation "
            "of the worker and a failure or kill at every byte it writes; real interpreters for the plain lifecycle and for the batch queue with stand-in queue commands")
    assumptions = ["hits are not replaced while the job is running", "the worker runs the installed xboa_tracking_process.py, forked instead of executed except in the end-to-end cases"]
    case_timeout = 60
    def setup(self):
        self.scratch = os.path.abspath("jobs")
        os.makedirs(self.scratch, exist_ok=True)
        subprocess.Popen = trackjob.ForkPopen
        # sizes for the fault lattice come from one run
        bin = os.path.abspath("bin")
        os.makedirs(bin, exist_ok=True)
        import xboa.tracking.tracking_process as tp
        path = os.path.join(os.path.dirname(tp.__file__), "xboa_tracking_process.py")
        self.script(bin, "xboa_tracking_process.py", "#!/bin/sh\nexec %s -c 'import sys, runpy; sys.modules[\"ROOT\"]=None; runpy.run_path(\"%s\", run_name=\"__main__\")' \"$@\"\n" % (sys.executable, path))
        self.script(bin, "bsub", """#!/bin/sh
if [ "$1" = -h ]; then exit 0; fi
while [ $# -gt 3 ]; do shift; done
n=$(cat $QDIR/n 2>/dev/null || echo 100); n=$((n+1)); echo $n > $QDIR/n
( "$@" >/dev/null 2>&1 </dev/null & echo $! > $QDIR/$n.pid; wait $!; echo $? > $QDIR/$n.rc ) >/dev/null 2>&1 </dev/null &
while [ ! -s $QDIR/$n.pid ]; do sleep 0.01; done
echo "Job <$n> is submitted to queue <test>."
""")
        self.script(bin, "bjobs", """#!/bin/sh
if [ ! -s $QDIR/$2.rc ]; then echo "Job <$2>, User <me>, Status <RUN>, Queue <test>"
elif [ "$(cat $QDIR/$2.rc)" = 0 ]; then echo "Job <$2>, User <me>, Status <DONE>, Queue <test>"
else echo "Job <$2>, User <me>, Status <EXIT>, Queue <test>; Exited with exit code $(cat $QDIR/$2.rc). The CPU time"; fi
""")
        self.script(bin, "bkill", "#!/bin/sh\nkill -9 $(cat $QDIR/$1.pid)\n")
        os.environ["PATH"] = bin + ":" + os.environ["PATH"]
        d = os.path.abspath("probe")
        os.makedirs(d, exist_ok=True)
        j = Job(1, d)
        j.p.set_hit_list(hits("A")); j.list = "A"
        j.start("setup", None, 1)
        j.go()
        self.size = 64 + sum(os.path.getsize(os.path.join(j.p.out_dir, f)) for f in os.listdir(j.p.out_dir) if f != j.p.pickle_jar)
        trackjob.reap()
        shutil.rmtree(d)
    def script(self, d, name, text):
        with open(os.path.join(d, name), "w") as f: f.write(text)
        os.chmod(os.path.join(d, name), 0o755)
    def cases(self):
        for k in range(6): yield ["real", k]
        for k in range(5): yield ["bsub", k]
        for n in range(1, 6 if self.thorough else 5):
            for ops in itertools.product(range(len(OPS)), repeat=n):
                # histories that do nothing but fail to start say nothing new
                if n > 3 and not any(o in (0, 1) for o in ops): continue
                yield ["ops", list(ops)]
        for p in range(len(PRIOR)):
            for l in ("A", "B", "E"):
                for k in range(0, 14):
                    for what in ("kill", "hold", "holdkill", "holdterm"): yield ["event", p, l, k, what]
            for n in range(0, self.size, 1 if self.thorough else 2):
                for what in ("error", "kill"): yield ["torn", p, "A", n, what]
    def run_case(self, case):
        d = os.path.join(self.scratch, "j%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        try: return getattr(self, case[0])(case, d)
        finally:
            trackjob.reap()
            shutil.rmtree(d, ignore_errors=True)
    def raises(self, case, f, what):
        try: f()
        except RuntimeError: return
        mc.need(False, "should-refuse", case, what)
    def ops(self, case, d):
        j = Job(5, d)
        deliver, n, obs = "no", 0, []
        try:
            for step, o in enumerate(case[1]):
                op = OPS[o]
                if op in ("setA", "setB"):
                    if j.state == "held": return None
                    j.p.set_hit_list(hits(op[3]))
                    j.list = op[3]
                    # the outcome of the last run stays what it was
                elif op in ("ok", "raise", "exit0", "pause"):
                    if j.state == "held":
                        self.raises(case, j.p.start, step)
                    else:
                        n += 1
                        j.start(case, {"ok": None, "raise": ("track", "raise"), "exit0": ("track", "exit0"), "pause": ("event", 2, "pause")}[op], n)
                        deliver = {"ok": "must", "raise": "no", "exit0": "no", "pause": "must"}[op] if j.list else "no"
                elif op == "release":
                    if j.state != "held": continue
                    while j.state == "held": j.go()
                elif op in ("kill", "terminate"):
                    f = j.p.kill if op == "kill" else j.p.terminate
                    if j.state == "new": self.raises(case, f, step)
                    else:
                        f()
                        if j.state == "held":
                            j.state = "done"
                            deliver = "no"
                if j.state == "held": j.p.join(0.0)
                else: j.p.join()
                j.observe(case, ["after step", step, op], deliver)
                obs.append([j.state, deliver, j.list, n])
                mc.seen([obs[-1], op])
                mc.S.add("transitions")
            return obs
        finally: j.close()
    def prior(self, case, d, which):
        j = Job(5, d)
        if which != "fresh":
            j.p.set_hit_list(hits("B")); j.list = "B"
            j.start(case, ("track", "raise") if which == "afterraise" else None, 1)
            if which == "afterkill": j.p.kill(); j.state = "done"
            while j.state == "held": j.go()
            if which == "afterreset": pass
            else: j.observe(case, "earlier run", "must" if which == "afterok" else "no")
        return j
    def event(self, case, d):
        """The worker stops for good, or for a while, at its k-th file operation."""
        _, p, l, k, what = case
        j = self.prior(case, d, PRIOR[p])
        try:
            j.p.set_hit_list(hits(l)); j.list = l
            j.start(case, ("event", k, "kill" if what == "kill" else "pause"), 2)
            seen = []
            for t in range(4):
                j.observe(case, ["hold", t], "may" if what == "kill" else "must")
                seen.append([j.state, j.where.decode()])
                if j.state != "held": break
                if what in ("holdkill", "holdterm") and j.where == b"p":
                    (j.p.kill if what == "holdkill" else j.p.terminate)()
                    j.state, j.result = "done", (l, 2)
                    j.observe(case, "after kill", "may")
                    seen.append("killed")
                    break
                j.go()
            mc.need(j.state == "done", "does-not-end", case)
            # the job can be run again
            j.start(case, None, 3)
            j.observe(case, "again, running", "no")
            while j.state == "held": j.go()
            j.observe(case, "again", "must")
            mc.seen([case, seen])
            mc.S.add("transitions", len(seen))
            return [case[1:], seen]
        finally: j.close()
    def torn(self, case, d):
        _, p, l, n, what = case
        j = self.prior(case, d, PRIOR[p])
        try:
            j.p.set_hit_list(hits(l)); j.list = l
            j.start(case, ("torn", n, what), 2)
            j.observe(case, "running", "no")
            while j.state == "held": j.go()
            j.observe(case, "after torn write", "may")
            if n > self.size - 8: pass
            j.start(case, None, 3)
            while j.state == "held": j.go()
            j.observe(case, "again", "must")
            mc.seen(case)
            mc.S.add("transitions", 2)
            return case
        finally: j.close()
    # end to end: real interpreters
    def plain(self, case, p, k, d):
        t = trackjob.Track(9, ["ok", "raise", "exit0", "kill", "ok", "ok"][k])
        run = lambda: (p.start(), p.join(60))
        self.raises(case, p.get_return_value, "before start")
        mc.need(not p.is_alive(), "running", case, "before start")
        p.set_hit_list(hits("A"))
        run()
        mc.need(not p.is_alive(), "running", case, "after join")
        try: got = p.get_return_value()
        except RuntimeError: got = None
        ok = k in (0, 4, 5)
        mc.need((got is not None) == ok, "result-lost" if ok else "result-invented", case)
        if ok: mc.need([[h["event_number"] for h in a] for a in got] == [[1, 1], [2, 2]], "wrong-result", case)
        if k in (0, 1, 4):
            p.set_hit_list(hits("B"))
            p.tracking.mode = "ok"
            p.set_hit_list(hits("B"))
            run()
            got = p.get_return_value()
            mc.need([[h["event_number"] for h in a] for a in got] == [[7, 7]], "earlier-result", case)
        if k == 5:
            p.tracking.mode = "raise"
            p.set_hit_list(hits("B"))
            run()
            self.raises(case, p.get_return_value, "after a failed run")
        mc.seen(case)
        return case
    def real(self, case, d):
        subprocess.Popen = trackjob.REAL
        try:
            p = ThisNodeProcess(trackjob.Track(9, ["ok", "raise", "exit0", "kill", "ok", "ok"][case[1]]))
            try: os.rmdir(p.out_dir)
            except OSError: pass
            p.tmp_dir = d
            p.new_out_dir()
            return self.plain(case, p, case[1], d)
        finally: subprocess.Popen = trackjob.ForkPopen
    def bsub(self, case, d):
        subprocess.Popen = trackjob.REAL
        os.environ["QDIR"] = d
        BSubProcess.scratch_dir = os.path.join(d, "scratch")
        try:
            p = BSubProcess(trackjob.Track(9, ["ok", "raise", "exit0", "kill", "ok", "ok"][case[1]]), "test", "00:30")
            return self.plain(case, p, case[1], d)
        finally: subprocess.Popen = trackjob.ForkPopen

if __name__ == "__main__":
    mc.main(C23)
