import builtins, contextlib, gc, io, itertools, math, os, resource, signal
import mc, models, iofmt
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

USER = "user"
FORMATS = iofmt.FORMATS + [USER]
UCOLS, UNITS = ["event_number", "x", "px", "pid"], {"x": "cm", "px": "GeV/c", "event_number": "", "pid": ""}
# particle types: two every format can carry, and per family one without a code
PIDS = [-13, 2212, 22, 9999]
MODES = ["refuse", "torn", "value", "interrupt", "memory"]
class Refused(KeyboardInterrupt): pass

class Faulty(object):
    """A text file whose k-th write fails."""
    def __init__(self, f, k, mode, log):
        self.f, self.k, self.mode, self.log = f, k, mode, log
    def write(self, s):
        n = self.log[0]
        self.log[0] += 1
        if n == self.k:
            if self.mode == "refuse": raise OSError(28, "No space left on device")
            if self.mode == "torn":
                self.f.write(s[:len(s) // 2])
                raise OSError(5, "Input/output error")
            if self.mode == "value": raise ValueError("write failed")
            if self.mode == "interrupt": raise Refused()
            raise MemoryError()
        return self.f.write(s)
    def writelines(self, lines):
        for l in lines: self.write(l)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __getattr__(self, name): return getattr(self.f, name)

@contextlib.contextmanager
def faulty_open(path, k, mode, log):
    real = builtins.open
    def opener(name, *a, **kw):
        f = real(name, *a, **kw)
        return Faulty(f, k, mode, log) if str(name) == path else f
    builtins.open, old = opener, io.open
    io.open = opener
    try: yield
    finally: builtins.open, io.open = real, old

class C19(mc.Check):
    pid = "C19"
    level = "fault_enumeration"
    technique = "exhaustive injection of write failures into the real writers, followed by retries"
    rule = ("every list of up to 3 hits over 4 particle types (with and without a code in the format) in 5 formats and a user format, through the "
            "path-based writers and an open handle: failure of every single write call in 5 ways (refused, torn, and three exception kinds), a second "
            "failure at every call of the retry, and a full disk at every byte (file size limit); then a clean retry compared byte for byte; every list without failures over all stations")
    assumptions = ["a write that fails part-way fails with an OSError"]
    case_timeout = 120
    def cases(self):
        depth = 3
        for n in range(0, depth + 1):
            for ps in itertools.product(range(4), repeat=n):
                if n == 3 and not self.thorough and 0 not in ps: continue
                for f in range(len(FORMATS)):
                    for m in range(len(MODES)):
                        for w in range(2): yield ["call", f, list(ps), m, w]
                    if n < 3 or self.thorough: yield ["disk", f, list(ps)]
        for f in range(len(FORMATS)):
            for n in range(2, 5 if self.thorough else 4):
                for ps in itertools.product(range(4), repeat=n):
                    for st in itertools.product(range(2), repeat=n): yield ["clean", f, list(ps), list(st)]
            for big in ((60,) if not self.thorough else (60, 200)): yield ["big", f, big]
    def make(self, fmt, ps, stations=None):
        w = models.World()
        ds, hits = [], []
        for i, k in enumerate(ps):
            d = w.new(pid=PIDS[k], event_number=i, particle_number=1, station=stations[i] if stations else i % 2, x=1.5 + i, y=-2.5, px=1.0, pz=200.0 + i, t=3.0, local_weight=0.5, spill=4)
            d["mass"] = float(iofmt.MASS.get(d["pid"], 0.0))
            d["charge"] = iofmt.CHARGE.get(d["pid"], 0.0)
            d["energy"] = math.sqrt(d["mass"] ** 2 + d["px"] ** 2 + d["pz"] ** 2)
            ds.append(d)
            hits.append(Hit.new_from_dict(dict(d)))
        return w, ds, hits
    def writable(self, fmt, d):
        if "icool" in fmt: return d["pid"] in iofmt.ICOOL.values() or d["pid"] in iofmt.ICOOL
        if "mars" in fmt: return d["pid"] in iofmt.MARS
        return True
    def intact(self, case, hits, ds, w, when):
        for i, (h, d) in enumerate(zip(hits, ds)):
            for v in models.STORED: mc.need(h[v] == d[v], "hit-in-memory-changed", case, when, i, v, h[v], d[v])
            mc.need(h["global_weight"] == 1.0, "hit-in-memory-changed", case, when, "global_weight")
    def lines_ok(self, case, text, fmt, ds, when):
        """Complete lines after the header are records of the writable hits, in order, none twice."""
        order = ds if fmt == USER else sorted(ds, key=lambda d: d["station"])
        want = [d for d in order if self.writable(fmt, d)]
        lines = text.split("\n")[:-1]
        lines = lines[2 if fmt == USER else (3 if "g4" in fmt else iofmt.HEADER[fmt]):]
        j = 0
        for l in lines:
            if fmt == USER:
                s = l.split()
                got = dict(zip(UCOLS, (int(s[0]), float(s[1]) * 10, float(s[2]) * 1e3, int(s[3])))) if len(s) == 4 else None
            else: got = iofmt.parse_line(fmt, l)
            mc.need(got is not None, "broken-line", case, when, l)
            while j < len(want) and not self.matches(fmt, got, want[j]): j += 1
            mc.need(j < len(want), "wrong-line", case, when, l)
            j += 1
        return len(lines)
    def matches(self, fmt, got, d):
        return all((got[v] == d[v]) if v in models.INTS else mc.close(got[v], d[v]) for v in got if v in d)
    def run(self, fmt, hits, path, writer):
        """Write; returns True when the call returned normally."""
        if writer == 0 and fmt != USER:
            Bunch.new_from_hits(hits).hit_write_builtin(fmt, path)
        elif writer == 1 and fmt != USER:
            Bunch.hit_write_builtin_from_dict({1: Bunch.new_from_hits(hits)}, fmt, path, None)
        else:
            f = open(path, "w")
            try:
                f.write("header\nheader\n")
                if writer == 0: Bunch.new_from_hits(hits).hit_write_user(UCOLS, UNITS, f)
                else:
                    for h in hits: h.write_user_formatted(UCOLS, UNITS, f)
            finally: f.close()
    def attempt(self, case, fmt, hits, path, writer, k, mode, log):
        try:
            with faulty_open(path, k, mode, log):
                self.run(fmt, hits, path, writer)
            return None
        except (OSError, ValueError, Refused, MemoryError) as e:
            return type(e).__name__
    def ref(self, case, fmt, ps, path, writer, stations=None):
        w, ds, hits = self.make(fmt, ps, stations)
        log = [0]
        out = self.attempt(case, fmt, hits, path, writer, -1, "refuse", log)
        mc.need(out is None, "clean-write-fails", case, out)
        self.intact(case, hits, ds, w, "clean write")
        with open(path) as f: text = f.read()
        n = self.lines_ok(case, text, fmt, ds, "clean write")
        mc.need(n == sum(self.writable(fmt, d) for d in ds), "lines-missing", case, n, text)
        return text, log[0]
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        Hit.set_g4bl_unit("mm")
        fmt = FORMATS[case[1]]
        path = "x_%d.dat" % os.getpid()
        try:
            if case[0] == "call": return self.calls(case, fmt, path)
            if case[0] == "clean": return [case[:3], [self.ref(case, fmt, case[2], path, w, case[3])[1] for w in range(2)]]
            if case[0] == "disk": return self.disk(case, fmt, path, case[2], 1)
            return self.disk(case, fmt, path, [k % 2 for k in range(case[2])], 611)
        finally:
            gc.collect(0)
            if os.path.exists(path): os.remove(path)
    def calls(self, case, fmt, path):
        ps, mode, writer = case[2], MODES[case[3]], case[4]
        text, n = self.ref(case, fmt, ps, path, writer)
        outs = []
        for k in range(n):
            for k2 in range(-1, n if (len(ps) < 3 or self.thorough) and mode in ("refuse", "torn", "value") else 0):
                w, ds, hits = self.make(fmt, ps)
                out = None
                for kk in (k, k2):
                    log = [0]
                    out = self.attempt(case, fmt, hits, path, writer, kk, mode, log)
                    self.intact(case, hits, ds, w, ["after failure at call", kk])
                    with open(path) as f: got = f.read()
                    lines = self.lines_ok(case, got, fmt, ds, ["after failure at call", kk])
                    if kk == -1: mc.need(out is None and got == text, "retry-differs", case, k, got, text)
                    elif mode in ("refuse", "torn"): mc.need(out == "OSError", "failure-not-reported", case, kk, out)
                    elif mode == "interrupt": mc.need(out == "Refused", "failure-not-reported", case, kk, out)
                    mc.seen([case, k, kk, got])
                    mc.S.add("transitions")
                    outs.append([kk, lines, out])
                if k2 != -1:
                    out = self.attempt(case, fmt, hits, path, writer, -1, mode, [0])
                    with open(path) as f: got = f.read()
                    mc.need(out is None and got == text, "retry-differs", case, k, k2, got, text)
                    self.intact(case, hits, ds, w, "after retry")
        # hits one at a time through an open handle
        if fmt != USER and len(ps):
            w, ds, hits = self.make(fmt, ps)
            for i, (h, d) in enumerate(zip(hits, ds)):
                f = Faulty(io.StringIO(), 0, mode, [0])
                try:
                    h.write_builtin_formatted(fmt, f)
                    raised = None
                except (KeyError, OSError, ValueError, Refused, MemoryError) as e: raised = type(e).__name__
                mc.need(raised is not None, "failure-not-reported", case, i)
                self.intact(case, hits, ds, w, "one hit")
                if self.writable(fmt, d):
                    g = io.StringIO()
                    h.write_builtin_formatted(fmt, g)
                    mc.need(g.getvalue() in text, "retry-differs", case, i)
        return [case, outs]
    def disk(self, case, fmt, path, ps, step):
        text, n = self.ref(case, fmt, ps, path, 0)
        size = len(text.encode())
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        outs = set()
        try:
            for limit in list(range(0, size, step)) + [size]:
                w, ds, hits = self.make(fmt, ps)
                if os.path.exists(path): os.remove(path)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
                try:
                    try:
                        self.run(fmt, hits, path, 0)
                        raised = None
                    except OSError as e: raised = "OSError"
                    gc.collect(0)
                finally: resource.setrlimit(resource.RLIMIT_FSIZE, old)
                self.intact(case, hits, ds, w, ["disk full at", limit])
                with open(path) as f: got = f.read()
                self.lines_ok(case, got, fmt, ds, ["disk full at", limit])
                if limit < size: mc.need(raised is not None, "failure-not-reported", case, limit)
                else: mc.need(raised is None and got == text, "write-differs", case, limit)
                self.run(fmt, hits, path, 0)
                with open(path) as f: mc.need(f.read() == text, "retry-differs", case, limit)
                self.intact(case, hits, ds, w, "after retry")
                mc.seen([case, limit])
                mc.S.add("transitions")
                outs.add(got.count("\n"))
        finally: signal.signal(signal.SIGXFSZ, handler)
        return [case, sorted(outs)]

if __name__ == "__main__":
    mc.main(C19)
