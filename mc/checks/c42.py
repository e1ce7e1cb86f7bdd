import ctypes, itertools, os, signal, subprocess, sys, time
import multiprocessing
import mc
mc.block_root()
import xboa.common as common
from xboa.common import config

LIMIT = 30.0

def job(directory, name, kind, a, b=0):
    """Started in another process: says so, waits at its gate, fails or ends."""
    with open(os.path.join(directory, name), "a") as f: f.write("%d start %r %r\n" % (os.getpid(), a, b))
    if kind == "held":
        fd = os.open(os.path.join(directory, name + ".gate"), os.O_RDONLY)
        os.read(fd, 1)
    if kind == "fail": raise ValueError("job failed")
    with open(os.path.join(directory, name), "a") as f: f.write("end\n")
def wait(test):
    t = time.time()
    while not test():
        if time.time() - t > LIMIT: return False
        time.sleep(0.001)
    return True

class Job(object):
    """A process started by xboa, through the handle it returns: a Process or a pid"""
    def __init__(self, handle, name, kind, args): self.h, self.name, self.kind, self.args, self.code = handle, name, kind, args, None
    def ended(self):
        if self.code is not None: return True
        if isinstance(self.h, int):
            pid, status = self.peek()
            if pid == 0: return False
            self.code = status
        else:
            if self.h.is_alive(): return False
            self.code = self.h.exitcode
        return True
    def peek(self):
        """Exit code without collecting the process, so that its pid stays taken"""
        r = os.waitid(os.P_PID, self.h, os.WEXITED | os.WNOHANG | os.WNOWAIT)
        if r is None: return 0, None
        return r.si_pid, r.si_status if r.si_code == os.CLD_EXITED else -r.si_status
    def text(self, d):
        try: return open(os.path.join(d, self.name)).read()
        except FileNotFoundError: return ""

OPS = ["quick", "fail", "held", "release", "kill", "user-ends", "collect"]

class C42(mc.Check):
    pid = "C42"
    level = "model_checking"
    technique = "exhaustive exploration of histories of starting, releasing, collecting and killing real processes, each held at a gate that the history opens, against a model of their states"
    rule = ("all sequences of up to 3 (thorough 5; of 4 those that start a job and kill) of 7 operations (start a job that ends, fails or is held; release one; kill all; the user ends one; the user collects one), with a process of the user's own beside them, "
            "with and without the multiprocessing library; interpreters that exit with 0-2 jobs running, ended or failed, with the flag that keeps them alive set and not set")
    assumptions = ["jobs do not block SIGTERM", "without multiprocessing processes that were started are not collected by the caller"]
    case_timeout = 120
    def cases(self):
        for mode in ("mp", "fork"):
            for n in range(1, 6 if self.thorough else 4):
                for ops in itertools.product(range(len(OPS)), repeat=n):
                    if mode == "fork" and 6 in ops: continue
                    if n > 3 and ops[0] > 2: continue
                    yield ["history", mode, list(ops)]
        if not self.thorough:
            for ops in itertools.product(range(len(OPS)), repeat=4):
                if ops[0] <= 2 and 4 in ops[2:] and ops.count(4) < 3: yield ["history", "mp", list(ops)]
        for k in range(12):
            for mode in ("mp", "fork"): yield ["history", mode, [2 if i < k else (0, 2, 1, 2, 3, 5, 2, 4, 6 if mode == "mp" else 3)[(i * (k + 1) + i // 9 + i * i // 5) % 9] for i in range(15)]]
        for flag in (None, True, False):
            for jobs in [[], ["held"], ["quick"], ["fail"], ["held", "held"], ["quick", "held"], ["fail", "held"], ["held", "quick"]]: yield ["exit", flag, jobs]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def history(self, case, mode, ops):
        pid = os.fork()
        if pid == 0:
            code = 1
            r = None
            try:
                r = self.child(case, mode, ops)
                code = 0
            except mc.Bad as e:
                open("result%d" % os.getpid(), "w").write(repr((e.sig, e.msg)))
            except BaseException:
                import traceback
                open("result%d" % os.getpid(), "w").write(repr(("exception", traceback.format_exc())))
            if r is not None: open("result%d" % os.getpid(), "w").write(repr(r))
            os._exit(code)
        _, status = os.waitpid(pid, 0)
        name = "result%d" % pid
        mc.need(os.path.exists(name), "the caller was ended", case, status)
        text = open(name).read()
        os.remove(name)
        r = eval(text)
        if isinstance(r, tuple): raise mc.Bad(*r)
        mc.S.add("transitions", len(ops))
        return r
    def child(self, case, mode, ops):
        import tempfile, shutil
        os.setpgid(0, 0)
        d = tempfile.mkdtemp(dir=".")
        d = os.path.abspath(d)
        children = []
        real = os.kill
        def guarded(pid, sig):
            # the only processes that may be signalled are those started here
            if pid not in children: raise mc.Bad("signal for another process", "%r: %r" % (case, pid))
            real(pid, sig)
        common._common.os.kill = guarded
        if mode == "fork": config.PACKAGES["multiprocessing"] = False
        own = multiprocessing.Process(target=job, args=(d, "own", "held", 0))
        os.mkfifo(os.path.join(d, "own.gate"))
        gates = {"own": os.open(os.path.join(d, "own.gate"), os.O_RDWR)}
        own.start()
        children.append(own.pid)
        jobs, obs, state = [], set(), {}
        try:
            for n, op in enumerate(ops):
                name = OPS[op]
                running = [j for j in jobs if state[j.name] == "running"]
                if op < 3:
                    nm = "job%d" % n
                    if name == "held":
                        os.mkfifo(os.path.join(d, nm + ".gate"))
                        gates[nm] = os.open(os.path.join(d, nm + ".gate"), os.O_RDWR)
                    extra = (n, "b") if n % 2 else (n,)
                    if name == "fail":
                        null, keep = os.open(os.devnull, os.O_WRONLY), os.dup(2)
                        os.dup2(null, 2)
                    h = common.subprocess(job, (d, nm, name) + extra)
                    if name == "fail": os.dup2(keep, 2)
                    children.append(h if isinstance(h, int) else h.pid)
                    mc.need(isinstance(h, int) == (mode == "fork"), "handle", case, h)
                    j = Job(h, nm, name, extra)
                    jobs.append(j)
                    state[nm] = {"quick": 0, "fail": 1, "held": "running"}[name]
                    mc.need(wait(lambda: "start" in j.text(d)), "job not started", case, n)
                elif name == "release" and running:
                    os.write(gates[running[0].name], b"x")
                    state[running[0].name] = 0
                elif name == "kill":
                    common.kill_all_subprocesses()
                    for j in running: state[j.name] = "killed"
                elif name == "user-ends" and running:
                    real(running[-1].h if isinstance(running[-1].h, int) else running[-1].h.pid, signal.SIGKILL)
                    state[running[-1].name] = "killed"
                elif name == "collect":
                    done = [j for j in jobs if state[j.name] != "running"]
                    if done: done[0].h.join(LIMIT)
                for j in jobs:
                    s = state[j.name]
                    if s == "running": mc.need(not j.ended(), "job ended early", case, n, j.name, j.code)
                    else:
                        mc.need(wait(j.ended), "job still running", case, n, j.name, s)
                        if s == "killed": mc.need(j.code < 0, "job was not killed", case, n, j.name, j.code)
                        elif name == "kill" and j.code < 0: pass # quick jobs may be hit at their very end
                        else: mc.need(j.code == s, "exit code", case, n, j.name, j.code, s)
                    b = j.args[1] if len(j.args) > 1 else 0
                    lines = j.text(d).splitlines()
                    mc.need(lines and lines[0].split(" ", 1)[1] == "start %r %r" % (j.args[0], b) and int(lines[0].split()[0]) != os.getpid(), "job called", case, n, j.name, lines)
                    mc.need(len(lines) == 1 + (s == 0), "job ran through", case, n, j.name, lines, s)
                mc.need(own.is_alive(), "a process of the user's own was ended", case, n)
                obs.add("%s:%d" % (name, len(running)))
        finally:
            for c in [own] + [j.h for j in jobs]:
                try: real(c if isinstance(c, int) else c.pid, signal.SIGKILL) if not isinstance(c, int) and c.is_alive() or isinstance(c, int) else None
                except (ProcessLookupError, TypeError): pass
            for g in gates.values(): os.close(g)
            shutil.rmtree(d, ignore_errors=True)
        return "history:%s:%s" % (mode, sorted(obs))
    def exit(self, case, flag, jobs):
        """A real interpreter: what is left running when it exits is ended, unless the flag says otherwise."""
        d = os.path.abspath("exit%d" % os.getpid())
        os.mkdir(d)
        src = ("import sys, os\nsys.modules['ROOT'] = None\nsys.path[:0] = %r\nimport xboa.common as common\nfrom c42 import job, wait\n" % ([os.path.dirname(os.path.abspath(__file__)), os.path.dirname(mc.__file__)] + sys.path)
               + ("common.kill_subprocesses_at_exit = %r\n" % flag if flag is not None else "")
               + "for i, k in enumerate(%r):\n    h = common.subprocess(job, (%r, 'job%%d' %% i, k, i))\n    wait(lambda: os.path.exists(%r + '/job%%d' %% i) and os.path.getsize(%r + '/job%%d' %% i) > 3)\n    if k != 'held': h.join()\n" % (jobs, d, d, d)
               + "open(%r + '/ready', 'w').close()\n" % d)
        gates = []
        for i, k in enumerate(jobs):
            os.mkfifo("%s/job%d.gate" % (d, i))
            gates.append(os.open("%s/job%d.gate" % (d, i), os.O_RDWR))
        import tempfile
        # stderr to a file: the jobs share it
        with open(d + "/err", "w") as err:
            p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", src], stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
            try:
                mc.need(wait(lambda: os.path.exists(d + "/ready") or p.poll() is not None), "interpreter is stuck", case)
                keep = flag is False and "held" in jobs
                if keep:
                    time.sleep(0.3)
                    for i, k in enumerate(jobs):
                        if k == "held":
                            pid = int(open("%s/job%d" % (d, i)).read().split()[0])
                            mc.need(os.path.exists("/proc/%d" % pid) and self.state(pid) not in "Z?", "job ended with the interpreter", case, i)
                            os.write(gates[i], b"x")
                try: code = p.wait(LIMIT)
                except subprocess.TimeoutExpired: raise mc.Bad("interpreter does not end", "%r" % (case,))
                mc.need(code == 0, "exit code", case, code, open(d + "/err").read()[-300:])
                for i, k in enumerate(jobs):
                    lines = open("%s/job%d" % (d, i)).read().splitlines()
                    mc.need(len(lines) == 1 + (k == "quick" or k == "held" and keep), "job ran through", case, i, lines)
                    pid = int(lines[0].split()[0])
                    mc.need(wait(lambda: not os.path.exists("/proc/%d" % pid) or self.state(pid) in "Z?"), "job outlives the interpreter", case, i)
                if "fail" not in jobs: mc.need("Error" not in open(d + "/err").read(), "error at exit", case, open(d + "/err").read()[-400:])
            finally:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
                for g in gates: os.close(g)
                for n in os.listdir(d): os.remove(os.path.join(d, n))
                os.rmdir(d)
        mc.S.add("transitions")
        return "exit:%s:%d" % (flag, len(jobs))
    def state(self, pid):
        try: return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0]
        except OSError: return "?"

if __name__ == "__main__": mc.main(C42)
