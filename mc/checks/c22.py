import itertools, multiprocessing, os, select, shutil, signal, struct, threading, time
import mc
mc.block_root()
import xboa.common as common

# Jobs run under a controller: each announces itself through one named pipe and waits on its own
# for permission to finish, so the order of completion is chosen by the check.
FAILS = [ValueError, KeyError, SystemExit, RuntimeError]

def job(*args):
    d, i, kind = args[:3]
    fd = os.open(os.path.join(d, "start"), os.O_WRONLY)
    os.write(fd, struct.pack("ii", i, os.getpid()))
    os.close(fd)
    fd = os.open(os.path.join(d, "go%d" % i), os.O_RDONLY)
    os.read(fd, 1)
    os.close(fd)
    if kind == "raise": raise FAILS[i % 4]("job %d" % i)
    if kind == "none": return None
    if kind == "same": return {"unsortable": [1, 2]}
    if kind == "error": return ValueError("returned by %d" % i)
    return [i, args[3:]]

def plain(x): return [repr(x), type(x).__name__]
SAME = [1, 1.0, "a"]

class Control(threading.Thread):
    def __init__(self, d, n, limit, choices):
        threading.Thread.__init__(self, daemon=True)
        self.d, self.n, self.limit, self.choices = d, n, limit, choices
        self.started, self.running, self.done, self.most, self.branch, self.pids = [], [], [], 0, [], set()
        self.stop = False
        self.fd = os.open(os.path.join(d, "start"), os.O_RDWR | os.O_NONBLOCK)
    def drain(self, t):
        r = select.select([self.fd], [], [], t)[0]
        if not r: return False
        for i, pid in struct.iter_unpack("ii", os.read(self.fd, 4096)):
            self.started.append(i)
            self.running.append(i)
            self.pids.add(pid)
        self.most = max(self.most, len(self.running))
        return True
    def run(self):
        while len(self.done) < self.n and not self.stop:
            want = min(self.limit, self.n - len(self.done))
            end = time.time() + (0.4 if self.started else 20)
            while len(self.running) < want and time.time() < end and not self.stop: self.drain(0.02)
            if not self.running: continue
            # a job beyond the limit would start about now
            if not self.done and self.n > self.limit:
                self.drain(0.04)
            else: self.drain(0)
            run = sorted(self.running)
            k = len(self.branch)
            c = self.choices[k] if k < len(self.choices) else 0
            self.branch.append((c, len(run)))
            i = run[min(c, len(run) - 1)]
            self.running.remove(i)
            self.done.append(i)
            fd = os.open(os.path.join(self.d, "go%d" % i), os.O_RDWR)
            os.write(fd, b"x")
            self.keep = getattr(self, "keep", []) + [fd]

KINDS = ["value", "raise", "none", "same", "error"]
class C22(mc.Check):
    pid = "C22"
    level = "model_checking"
    technique = "stateless exploration of every completion order of real worker processes under a controller"
    rule = ("every order in which the jobs of process_list can finish (depth-first search over the controller's choices at every step, real processes), "
            "for 0..4 jobs (thorough 5) and limits 1..3 (thorough 4), with no job, each one or all jobs raising, and values that are None, "
            "equal, unsortable or themselves exceptions; every list of up to 4 equal, distinct and repeated arguments; longer lists than the pool's chunks in fixed orders")
    assumptions = ["jobs end by returning or raising an exception; values can be pickled"]
    case_timeout = 60
    def cases(self):
        for n in range(0, 6 if self.thorough else 5):
            for p in range(1, 5 if self.thorough else 4):
                pats = [["value"] * n, ["raise"] * n, [KINDS[i % 5] for i in range(n)], [KINDS[(i + 2) % 5] for i in range(n)]]
                pats += [["raise" if i == j else "value" for i in range(n)] for j in range(n)]
                seen = []
                for k in pats:
                    if k in seen: continue
                    seen.append(k)
                    if n == 4 and p == 3 and not self.thorough and len(seen) > 3: continue
                    if n == 5 and len(seen) > 2: continue
                    yield [n, p, k]
        for n in range(1, 5):
            for ks in itertools.product(range(3), repeat=n):
                if len(set(ks)) < n or n == 3: yield ["repeats", 1 + sum(ks) % 3, list(ks)]
        for n in (17, 60, 250): yield ["repeats", 1 + n % 4, [(k + k * k // 4) % 3 for k in range(n)]]
        for n, p in ((9, 2), (13, 3)): yield [n, p, [KINDS[i % 5] for i in range(n)]]
    def one(self, case, n, p, kinds, choices):
        self.k = getattr(self, "k", 0) + 1
        d = os.path.abspath("p%d_%d" % (os.getpid(), self.k))
        os.mkdir(d)
        try:
            os.mkfifo(os.path.join(d, "start"))
            for i in range(n): os.mkfifo(os.path.join(d, "go%d" % i))
            args = [(d, i, kinds[i]) + ("extra",) * (i % 3) for i in range(n)]
            before = list(args)
            c = Control(d, n, p, choices)
            c.start()
            got = common.process_list(job, args, p)
            c.stop = True
            c.join()
            mc.need(args == before, "arguments-changed", case)
            mc.need(sorted(c.started) == list(range(n)), "job-run-count", case, c.started)
            mc.need(c.most <= p, "too-many-at-once", case, c.most, p)
            mc.need(len(got) == n, "number-of-results", case, choices, len(got))
            for i, g in enumerate(got):
                k = kinds[i]
                ok = {"value": g == [i, ("extra",) * (i % 3)], "none": g is None, "same": g == {"unsortable": [1, 2]},
                      "raise": type(g) is FAILS[i % 4] and g.args == ("job %d" % i,),
                      "error": type(g) is ValueError and g.args == ("returned by %d" % i,)}[k]
                mc.need(ok, "wrong-result", case, "order", c.done, "index", i, repr(g))
            for fd in getattr(c, "keep", []) + [c.fd]: os.close(fd)
            # helper processes go away
            end = time.time() + 10
            while time.time() < end:
                if not multiprocessing.active_children(): break
                time.sleep(0.002)
            mc.need(not multiprocessing.active_children(), "helper-left-behind", case, len(multiprocessing.active_children()))
            return c
        except BaseException:
            for q in multiprocessing.active_children(): q.kill()
            raise
        finally: shutil.rmtree(d, ignore_errors=True)
    def run_case(self, case):
        n, p, kinds = case
        if n == "repeats":
            # equal arguments are jobs of their own
            args = [(SAME[k],) for k in kinds]
            got = common.process_list(plain, args, p)
            mc.need(got == [plain(*x) for x in args], "repeated-argument", case, got)
            mc.S.add("schedules")
            return case
        if n > 5:
            orders = []
            for ch in ([0] * n, [p - 1] * n, [k % p for k in range(n)]):
                c = self.one(case, n, p, kinds, ch)
                orders.append(list(c.done))
                mc.S.add("transitions", n)
                mc.S.add("schedules")
            return [case, orders]
        stack, orders = [[]], []
        while stack:
            ch = stack.pop()
            c = self.one(case, n, p, kinds, ch)
            orders.append(list(c.done))
            mc.seen([case, c.done])
            mc.S.add("schedules")
            mc.S.add("transitions", len(c.done))
            for k in range(len(ch), len(c.branch)):
                for alt in range(1, c.branch[k][1]): stack.append([b[0] for b in c.branch[:k]] + [alt])
        return [case, sorted(set(map(tuple, orders)))]

if __name__ == "__main__":
    mc.main(C22)
