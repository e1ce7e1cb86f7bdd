"""A tracking object whose runs can be told apart and held up, and a Popen that forks instead of
executing a new interpreter (same worker code, no start-up cost)."""
import os, signal, subprocess, sys, threading, resource
from xboa.tracking import TrackingBase

RUN = 0              # number of the current run, set by the harness before each start
GATE = None          # (write end "I am here", read end "go on") or None
FAULT = None         # see fault()
REAL = subprocess.Popen
CHILDREN = []

class Track(TrackingBase):
    """Each hit gives [hit, copy moved by one metre and marked with the run and the tag]."""
    def __init__(self, tag, mode="ok"):
        TrackingBase.__init__(self)
        self.tag, self.mode = tag, mode
    def track_one(self, hit):
        out = hit.deepcopy()
        out["z"] = hit["z"] + 1000.0
        out["station"] = RUN
        out["status"] = self.tag
        out["particle_number"] = 1
        return [hit.deepcopy(), out]
    def track_many(self, hits):
        mode = FAULT[1] if FAULT and FAULT[0] == "track" else self.mode
        wait()
        if mode == "raise": raise ValueError("tracking failed")
        if mode == "exit": os._exit(3)
        if mode == "exit0": os._exit(0)
        if mode == "kill": os.kill(os.getpid(), signal.SIGKILL)
        out = [self.track_one(h) for h in hits]
        self.last = out
        return out

def wait():
    if GATE is not None:
        os.write(GATE[0], b"g")
        os.read(GATE[1], 1)

def fault(out_dir):
    """Install the fault in the worker: ("event", k, kill|pause) at the k-th operation on a file of the job, or ("torn", n, error|kill)."""
    if FAULT is None: return
    if FAULT[0] == "torn":
        if FAULT[2] == "kill": signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        else: signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (FAULT[1], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    if FAULT[0] == "event":
        count = [0]
        def hook(name, args):
            if name in ("open", "os.remove", "os.rename", "os.link", "os.truncate") and args and str(args[0]).startswith(out_dir): event(count)
        sys.addaudithook(hook)
        globals()["END"] = lambda: event(count)

END = None
def event(count):
    n = count[0]
    count[0] += 1
    if n == FAULT[1]:
        if FAULT[2] == "kill": os.kill(os.getpid(), signal.SIGKILL)
        os.write(GATE[0], b"p")
        os.read(GATE[1], 1)

class ForkPopen(object):
    def __new__(cls, cmd, *a, **kw):
        if not (isinstance(cmd, (list, tuple)) and any(str(c).endswith("xboa_tracking_process.py") for c in cmd)): return REAL(cmd, *a, **kw)
        return object.__new__(cls)
    def __init__(self, cmd, *a, **kw):
        k = [i for i, c in enumerate(cmd) if str(c).endswith("xboa_tracking_process.py")][0]
        self.lock = threading.Lock()          # like the real one, it can't be pickled
        self.args, self.returncode = cmd, None
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                for s in (signal.SIGALRM, signal.SIGTERM, signal.SIGINT): signal.signal(s, signal.SIG_DFL)
                if GATE is not None: os.close(GATE[2]); os.close(GATE[3])
                fd = os.open("/dev/null", os.O_WRONLY)
                os.dup2(fd, 1); os.dup2(fd, 2)
                sys.argv = [str(c) for c in cmd[k:]]
                out_dir = [sys.argv[i + 1] for i, c in enumerate(sys.argv) if c == "--out-dir"][0]
                from xboa.tracking.tracking_process import xboa_tracking_process as worker
                fault(out_dir)
                worker.main()
                if END is not None: END()
                code = 0
            except SystemExit as e: code = e.code if isinstance(e.code, int) else 1
            except BaseException: code = 1
            finally: os._exit(code)
        CHILDREN.append(self)
    def poll(self):
        if self.returncode is None:
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if pid: self.returncode = os.waitstatus_to_exitcode(st)
        return self.returncode
    def wait(self, timeout=None):
        if self.returncode is None:
            self.returncode = os.waitstatus_to_exitcode(os.waitpid(self.pid, 0)[1])
        return self.returncode
    def send_signal(self, s):
        if self.poll() is None: os.kill(self.pid, s)
    def terminate(self): self.send_signal(signal.SIGTERM)
    def kill(self): self.send_signal(signal.SIGKILL)
    def communicate(self, *a, **kw): self.wait(); return None, None
    def __enter__(self): return self
    def __exit__(self, *a): self.wait()

def reap():
    for c in CHILDREN:
        try:
            if c.poll() is None:
                c.kill()
                c.wait()
        except (OSError, ChildProcessError): pass
    del CHILDREN[:]
