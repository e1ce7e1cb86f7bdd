import io, itertools, math, os
import mc, models, iofmt
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch
import xboa.common as common

USER = "user"
UCOLS = ["event_number", "x:cm", "px:GeV/c", "pid", "-", "t:ns", "local_weight"]
UNITS = {"x": "cm", "px": "GeV/c", "t": "ns", "local_weight": ""}
FORMATS = iofmt.FORMATS + [USER]
CHARS = ["", " ", "\n", "x", "-", "e", ".", "9", "\t", "#"]
# one line of a file: made from the intact line l of the format
KINDS = ["a", "b", "blank", "space", "short", "long", "word", "merged", "half", "sci", "big", "pid", "comment", "dash", "noise", "fracint"]
NKINDS = len(KINDS)
MASS = dict(common.pdg_pid_to_mass)

def parse(fmt, line, g4unit="mm"):
    if fmt != USER: return iofmt.parse_line(fmt, line, g4unit)
    w = line.split()
    if len(w) != len(UCOLS): return None
    d = {}
    for c, s in zip(UCOLS, w):
        n, _, u = c.partition(":")
        if n == "-": continue
        try:
            v = float(s)
            if n in iofmt.INTS:
                try: v = int(s)
                except ValueError: v = int(v)
                if not -2 ** 31 <= v < 2 ** 31: return None
            else: v *= iofmt.UNITS[u]
        except (ValueError, OverflowError):
            return None
        d[n] = v
    return d

class C17(mc.Check):
    pid = "C17"
    level = "fault_enumeration"
    technique = "exhaustive enumeration of truncation points, one-character faults and damaged-line placements, real readers against a reference parser"
    rule = ("for all 5 line-based formats and a user format: every byte a file can be cut at (1..3 hits, with and without comments), every "
            "single-character fault from 10 at every byte after the header, every file of up to 3 (thorough 4) lines over 16 kinds of intact and damaged line with and without a "
            "final newline, each also with hit limits, test functions and a second intact file")
    assumptions = ["the header of the file is present (cuts inside it leave no particles)",
                   "an unterminated last line with the right number of numeric columns counts as intact: the reader cannot know that digits are missing",
                   "files are text (valid utf-8)", "in user formats particle types are in the particle table"]
    case_timeout = 20
    def cases(self):
        for fmt in FORMATS:
            for n in (1, 2, 3):
                for cut in range(len(self.text(fmt, n)) + 1): yield ["cut", fmt, n, cut]
            head = len(self.head(fmt))
            size = len(self.text(fmt, 2))
            for pos in range(head, size):
                yield ["char", fmt, pos]
            depth = 4 if self.thorough else 3
            for k in range(0, depth + 1):
                for kinds in itertools.product(range(NKINDS), repeat=k):
                    yield ["lines", fmt, list(kinds)]
            # long files, damaged at one or two places
            for n in (20, 120, 600):
                for k in range(NKINDS):
                    for places in ((0,), (n // 2,), (n - 1,), (n // 3, n // 3 + 1), (1, n - 2)):
                        yield ["lines", fmt, [k if i in places else i % 2 for i in range(n)]]
    def vals(self, fmt, k):
        d = dict(x=1.5 + k, y=-2.5, z=1000.0, t=3.5, px=10.0 + k, py=-20.0, pz=200.0, pid=[-13, 2212, -211][k % 3], event_number=3 + k, particle_number=2,
                 station=0, local_weight=0.25 * (k + 1), bx=0.001)
        return d
    def line(self, fmt, k):
        d = iofmt.on_shell(self.vals(fmt, k))
        out = []
        for c in UCOLS if fmt == USER else iofmt.COLS[fmt]:
            n, _, u = c.partition(":")
            if n == "pid": v = iofmt.ICOOL[d["pid"]] if "icool" in fmt else iofmt.MARS[d["pid"]] if "mars" in fmt else d["pid"]
            elif n == "ct": v = d["t"] * 299.792458 / 10.0
            else:
                v = d.get(n, 0)
                if u: v = v / iofmt.UNITS["mm" if u == "L" else u]
            out.append(repr(v) if isinstance(v, float) else str(v))
        return " ".join(out) + " "
    def head(self, fmt):
        if fmt == USER: return "title\n# columns\n"
        return {"icool_for009": "#a\n#  units = [s]\nevt par\n", "icool_for003": "a\n0. 0. 0.\n", "mars_1": ""}.get(
            fmt, "#BLTrackFile a\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n#mm mm mm MeV/c MeV/c MeV/c ns - - - - -\n")
    def text(self, fmt, n):
        return self.head(fmt) + "".join(self.line(fmt, k) + "\n" for k in range(n))
    def make(self, fmt, kind, i):
        l = self.line(fmt, i)
        w = l.split()
        cols = UCOLS if fmt == USER else iofmt.COLS[fmt]
        ev = [c.split(":")[0] for c in cols].index("event_number")
        pid = [c.split(":")[0] for c in cols].index("pid")
        px = [c.split(":")[0] for c in cols].index("px")
        if kind == "a": pass
        elif kind == "b": w[ev] = "77"
        elif kind == "blank": return ""
        elif kind == "space": return "   "
        elif kind == "short": w = w[:-1]
        elif kind == "long": w.append("1.0")
        elif kind == "word": w[px] = "word"
        elif kind == "merged": return l + self.line(fmt, i + 1)
        elif kind == "half": w = w[:len(w) // 2]
        elif kind == "sci": w[ev] = "1.000001e+06"
        elif kind == "big": w[ev] = "3000000000"
        elif kind == "pid":
            if fmt == USER: w[pid] = "-11"
            else: w[pid] = "77"
        elif kind == "comment": return "# " + l
        elif kind == "dash": w[px] = "--1.0"
        elif kind == "noise": return "\x00\x01 ??"
        elif kind == "fracint": w[ev] = "12.0"
        return " ".join(w)
    def want(self, fmt, text):
        lines = text.split("\n")
        if lines[-1] == "": lines.pop()
        skip = 2 if fmt == USER else iofmt.HEADER[fmt]
        out = []
        for l in lines[skip:]:
            if "g4beamline" in fmt and l[:1] == "#": continue
            d = parse(fmt, l)
            if d is not None:
                d["mass"] = float(MASS.get(abs(d["pid"]), 0.0))
                d["charge"] = float(common.pdg_pid_to_charge.get(d["pid"], 0.0))
                e = math.sqrt(sum(d.get(v, 0.0) * d.get(v, 0.0) for v in ("px", "py", "pz", "mass")))
                d["energy"] = 0.0 if fmt == USER else e
                out.append(d)
        return out
    def read(self, fmt, name, test=None, limit=-1):
        if fmt == USER:
            cols = [c.split(":")[0].replace("-", "") if c == "-" else c.split(":")[0] for c in UCOLS]
            with open(name) as f: return Bunch.new_from_read_user(cols, UNITS, f, 2, test, limit)
        return Bunch.new_from_read_builtin(fmt, name, test, limit)
    def compare(self, case, got, want):
        mc.need(len(got) == len(want), "particles", case, "read", len(got), "intact lines", len(want))
        for h, d in zip(got, want):
            for v in models.DOUBLES + models.INTS:
                x = d.get(v, 1.0 if v == "local_weight" else 0.0)
                if v in models.INTS: mc.need(h[v] == x, "value", case, v, h[v], x)
                else: mc.near(h[v], x, "value", case, v, rel=1e-9, abs_=1e-12)
    def check(self, case, fmt, text, full):
        name = "d_%d.dat" % os.getpid()
        with open(name, "w", newline="") as f: f.write(text)
        want = self.want(fmt, text)
        if fmt == USER and any(abs(d["pid"]) not in MASS or d["pid"] not in common.pdg_pid_to_charge for d in want):
            try: self.read(fmt, name)
            except KeyError: return [fmt, "unknown"]      # reported, as the docstring of the reader says for unknown keys
        self.compare(case, self.read(fmt, name), want)
        mc.seen([fmt, text])
        if full:
            for n in range(0, len(want) + 2):
                self.compare(case + ["limit", n], self.read(fmt, name, None, n), want[:n])
            odd = [d for d in want if d["event_number"] % 2]
            self.compare(case + ["filter"], self.read(fmt, name, lambda h: h["event_number"] % 2 == 1), odd)
            self.compare(case + ["filter"], self.read(fmt, name, lambda h: h["event_number"] % 2 == 1, 1), odd[:1])
            if fmt != USER:
                split = Bunch.new_dict_from_read_builtin(fmt, name, "event_number")
                mc.need(sorted(split) == sorted(set(d["event_number"] for d in want)), "split", case)
                for k in split: self.compare(case + ["split"], split[k], [d for d in want if d["event_number"] == k])
                # a second, intact file
                with open(name + "2", "w") as f: f.write(self.text(fmt, 2))
                got = self.read(fmt, name + "*")
                other = self.want(fmt, self.text(fmt, 2))
                try: self.compare(case, got, want + other)
                except mc.Bad: self.compare(case, got, other + want)     # files come in the file system's order
                os.remove(name + "2")
        os.remove(name)
        return [fmt, h(want)]
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        Hit.set_g4bl_unit("mm")
        fmt = case[1]
        if case[0] == "cut": return self.check(case, fmt, self.text(fmt, case[2])[:case[3]], case[3] % 7 == 0)
        if case[0] == "char":
            t = self.text(fmt, 2)
            for c in CHARS:
                for w in (1, 0):
                    out = self.check(case + [c, w], fmt, t[:case[2]] + c + t[case[2] + w:], False)
                    mc.S.add("transitions")
            return case
        lines = [self.make(fmt, KINDS[k], i) for i, k in enumerate(case[2])]
        text = self.head(fmt) + "\n".join(lines)
        out = self.check(case, fmt, text, len(lines) < 3)
        if lines: self.check(case, fmt, text + "\n", len(lines) < 2)
        return out

h = mc.h
if __name__ == "__main__":
    mc.main(C17)
