import io, itertools, math, os
import mc, models, iofmt
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch
import xboa.common as common

INTS = ["eventNumber", "event_number", "particleNumber", "particle_number", "pid", "status", "station"]
STORED = [v for v in models.DOUBLES] + INTS
DERIVED = ["p", "r", "phi", "pt", "pphi", "x'", "y'", "t'", "ct'", "r'", "spin", "weight", "ct", "r_squared", "z'", "kinetic_energy", "l_kin"]
WRITABLE = STORED + DERIVED + [""]
UNITS = sorted(iofmt.UNITS)
SEPS = [" ", "\t", ",", "@", "  ", ";"]
SMALL = ["x", "px", "pz", "energy", "t", "mass", "charge", "pid", "event_number", "local_weight", "ct", "", "particleNumber", "bz"]
ORDERS = [None, lambda a, b: a["x"] - b["x"], lambda a, b: b["event_number"] - a["event_number"],
          lambda a, b: (a["station"] > b["station"]) - (a["station"] < b["station"]), lambda a, b: 0]
SHELLS = ["", "energy", "p", "px", "py", "pz"]

def dicts(n):
    w = models.World()
    out = []
    for k in range(n):
        d = dict(x=1.25 + k, y=-0.75 * k - 1, z=100.0 * k, t=-3.5 + k, px=10.0 - 25 * k, py=-20.0 + k, pz=200.0 + 7 * k, pid=[-13, 211, -2212, 11][k % 4],
                 event_number=3 - k, particle_number=2 * k, station=k % 2 - 1, status=k, spill=k, bx=1e-3, by=-2e-3, bz=4e-3 + k, ex=0.1, ey=-0.2, ez=3.0,
                 sx=0.5, sy=-0.25, sz=0.125, path_length=1e4, proper_time=-7.0, e_dep=1e-9, local_weight=0.5 + k)
        m = iofmt.MASS.get(abs(d["pid"]), 938.271996)
        d["mass"] = m
        d["charge"] = {-13: 1.0, 211: 1.0, -2212: -1.0, 11: -1.0}[d["pid"]]
        d["energy"] = math.sqrt(m * m + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) + 3.0 * k
        out.append(w.new(**d))
    return w, out

class C16(mc.Check):
    pid = "C16"
    level = "model_checking"
    technique = "exhaustive enumeration of column lists, units, orders and headers through the real writer and reader"
    rule = ("every writable variable in every unit; every ordered pair (thorough: triple over 14 names) of columns with 6 separators and 0..3 hits; "
            "all hit lists up to 5 long over 3 sort keys with 5 orderings; header lengths 0..4; every mass-shell choice over a lattice of momenta and energies; every place for an unknown column or unit")
    assumptions = ["derived columns are only read back on their own or after the variables they depend on", "files that are read back use white space separators"]
    def cases(self):
        for v in WRITABLE:
            for u in UNITS: yield ["col", v, u]
        for n in (1, 2):
            for i, cols in enumerate(itertools.product(WRITABLE, repeat=n)): yield ["cols", list(cols), i % 4, i % len(SEPS), i % len(UNITS)]
        for n in ((3, 4) if self.thorough else (3,)):
            for i, cols in enumerate(itertools.product(SMALL if n == 3 else SMALL[:9], repeat=n)):
                if self.thorough or i % 2 == 0: yield ["cols", list(cols), i % 4, i % 2, i % len(UNITS)]
        for n in range(0, 7 if self.thorough else 6):
            for keys in itertools.product((0, 1, 2), repeat=n):
                for o in range(len(ORDERS)): yield ["order", list(keys), o]
        for n in (9, 40, 300, 1050):
            for o in range(len(ORDERS)): yield ["order", [(k * k + k // 5) % 4 for k in range(n)], o]
            for i, cols in enumerate((["x", "px", "pid"], ["pid", "event_number", "t", "energy"], ["p", "r", "weight"], STORED)): yield ["cols", cols, n, i % 2, i]
        for n in range(4):
            for skip in range(5):
                for lines in range(5): yield ["skip", n, skip, lines]
        for sh in SHELLS:
            for ps in itertools.product((0.0, 30.0, -40.0), repeat=3):
                for e in (-0.5, 0.0, 0.1, 1.0, 400.0):
                    for pid in (-13, 2212, 11, 22, 0): yield ["shell", sh, list(ps), e, pid]
        for n in range(1, 4):
            for k in range(n):
                for kind in ("column", "unit", "nounit"):
                    for where in ("hit", "bunch", "write", "writebunch"): yield ["error", n, k, kind, where]
        for pid in (1, 9999, -22): yield ["badpid", pid]
    def hits(self, ds): return [Hit.new_from_dict({k: v for k, v in d.items()}) for d in ds]
    def same(self, case, hits, ds):
        for h, d in zip(hits, ds):
            for v in models.DOUBLES + models.INTS: mc.need(h[v] == d[v], "hit-in-memory-changed", case, v)
    def unit(self, v, k):
        if v in INTS or v == "": return ""
        return UNITS[k % len(UNITS)]
    def lines(self, case, text, w, ds, cols, units, sep):
        want = len(ds)
        mc.need(text.count("\n") == want and (not want or text.endswith("\n")), "one-line-per-hit", case, text)
        for line, d in zip(text.split("\n"), ds):
            words = line.split(sep) if sep.strip() else line.split()
            if sep.strip() and words[-1] == "": words = words[:-1]
            mc.need(len(words) == len(cols), "number-of-columns", case, line)
            for s, v in zip(words, cols):
                if v == "": continue
                x = w.get(d, v)
                if v in INTS: mc.need(s == str(x), "integer-column", case, v, s, x)
                else: mc.near(float(s), x / iofmt.UNITS[units[v]], "column", case, v, units[v], rel=1e-8, abs_=1e-300)
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        mc.seen(case)
        kind = case[0]
        if kind in ("col", "cols"):
            if kind == "col":
                cols, n, sep = [case[1]], 2, " "
                if (case[1] in INTS or case[1] == "") and case[2] != "": return None
                units = {case[1]: case[2]}
            else:
                cols, n, sep = case[1], case[2], SEPS[case[3]]
                units = {v: self.unit(v, case[4] + 5 * i) for i, v in enumerate(cols)}
            w, ds = dicts(n)
            hits = self.hits(ds)
            b = Bunch.new_from_hits(hits)
            f = io.StringIO()
            b.hit_write_user(cols, units, f, sep)
            self.lines(case, f.getvalue(), w, ds, cols, units, sep)
            if n:
                g = io.StringIO()
                hits[0].write_user_formatted(cols, units, g, sep)
                mc.need(g.getvalue() == f.getvalue().split("\n")[0] + "\n", "one-hit", case)
            self.same(case, hits, ds)
            free = [v for v in cols if v in DERIVED]
            if sep.strip() or any(v in DERIVED and v != "ct" for v in cols): return case
            if any(v == "ct" for v in cols) and "t" in cols: return case
            mc.need(all(v in Hit.set_variables() for v in cols), "settable", case)
            out = Bunch.new_from_read_user(cols, units, io.StringIO(f.getvalue()), 0)
            self.read_back(case, out, ds, cols)
            fh = io.StringIO(f.getvalue())
            for d in ds: self.read_back(case, [Hit.new_from_read_user(cols, units, fh)], [d], cols)
            return case
        if kind == "order":
            keys, o = case[1:]
            w, ds = dicts(len(keys))
            for d, k in zip(ds, keys): d.update(x=float(k), event_number=k, station=k)
            hits = self.hits(ds)
            b = Bunch.new_from_hits(hits)
            f = io.StringIO()
            cols, units = ["x", "event_number", "station", "t"], {"x": "mm", "t": "ns", "event_number": "", "station": ""}
            b.hit_write_user(cols, units, f, " ", ORDERS[o])
            want = list(ds)
            if o == 2: want = sorted(ds, key=lambda d: -d["event_number"])
            elif o in (1, 3): want = sorted(ds, key=lambda d: d["x"])
            self.lines(case, f.getvalue(), w, want, cols, units, " ")
            self.same(case, hits, ds)
            mc.need(all(x == y for x, y in zip(b.hits(), hits)) and len(b) == len(hits), "bunch-changed", case)
            return case
        if kind == "skip":
            n, skip, lines = case[1:]
            w, ds = dicts(n)
            cols, units = ["x", "pid", "px"], {"x": "cm", "px": "GeV/c"}
            f = io.StringIO()
            for k in range(lines): f.write(["# header\n", "\n", "1 2 3 4\n", "5.0 -13 6.0\n", "words\n"][k])
            Bunch.new_from_hits(self.hits(ds)).hit_write_user(cols, dict(units, pid=""), f)
            out = Bunch.new_from_read_user(cols, units, io.StringIO(f.getvalue()), skip)
            rest = f.getvalue().split("\n")[skip:]
            want = []
            for line in rest:
                s = line.split()
                if len(s) == 3: want.append(dict(x=float(s[0]) * 10, pid=int(s[1]), px=float(s[2]) * 1e3))
            mc.need(len(out) == len(want), "skip-lines", case, len(out), len(want))
            for h, d in zip(out, want):
                mc.need(h["pid"] == d["pid"], "skip-lines", case)
                mc.near(h["x"], d["x"], "skip-lines", case)
                mc.near(h["px"], d["px"], "skip-lines", case)
            return case
        if kind == "shell":
            sh, ps, e, pid = case[1:]
            m = iofmt.MASS.get(pid, 0.0)
            p2 = sum(x * x for x in ps)
            en = e if e in (0.0, 400.0) else (math.sqrt(m * m + p2) * (1.0 + 0.3 * e) if e == 1.0 else m * (1 + e))
            d = dict(px=ps[0], py=ps[1], pz=ps[2], energy=en)
            cols = ["pid", "px", "py", "pz", "energy"]
            units = {v: "GeV/c" for v in cols[1:]}
            line = "%d %s\n" % (pid, " ".join(repr(d[v] / 1e3) for v in cols[1:]))
            h = Hit.new_from_read_user(cols, units, io.StringIO(line), sh)
            want = dict(d)
            if sh == "energy": want["energy"] = math.sqrt(m * m + p2)
            elif sh == "p":
                if p2 == 0.0: return None
                q = en * en - m * m
                if abs(q) < 1e-6: return None
                s = math.sqrt(q / p2) if q > 0 else 0.0
                for v in ("px", "py", "pz"): want[v] = d[v] * s
            elif sh:
                q = en * en - m * m - p2 + d[sh] ** 2
                if abs(q) < 1e-5: return None
                want[sh] = math.sqrt(q) if q > 0 else 0.0
            for v in want:
                mc.near(abs(h[v]) if v == sh else h[v], want[v], "mass-shell", case, v, rel=1e-7, abs_=1e-7)
            mc.near(h["mass"], m, "mass", case)
            mc.need(h["charge"] == iofmt.CHARGE.get(pid, 0.0), "charge", case)
            return case
        if kind == "error":
            n, k, what, where = case[1:]
            cols = ["x", "px", "event_number"][:n]
            units = {"x": "mm", "px": "MeV/c", "event_number": ""}
            if what == "column": cols[k] = "not_a_variable"; units["not_a_variable"] = "mm"
            elif cols[k] == "event_number": return None
            elif what == "unit": units[cols[k]] = "not_a_unit"
            else: del units[cols[k]]
            w, ds = dicts(2)
            hits = self.hits(ds)
            f = io.StringIO("1 2 3\n"[:2 * n - 1] + "\n")
            ok = False
            try:
                if where == "hit": Hit.new_from_read_user(cols, units, f)
                elif where == "bunch": Bunch.new_from_read_user(cols, units, f, 0)
                elif where == "write": hits[0].write_user_formatted(cols, units, io.StringIO())
                else: Bunch.new_from_hits(hits).hit_write_user(cols, units, io.StringIO())
            except KeyError:
                ok = True
            except Exception as e:
                ok = where.startswith("write")
            mc.need(ok, "unknown-not-reported", case)
            self.same(case, hits, ds)
            return case
        if kind == "badpid":
            try:
                h = Hit.new_from_read_user(["x", "pid"], {"x": "mm"}, io.StringIO("1.0 %d\n" % case[1]))
            except Exception:
                return case
            mc.need(False, "unknown-particle-type-guessed", case, h["mass"])
    def read_back(self, case, out, ds, cols):
        mc.need(len(out) == len(ds), "number-of-hits", case, len(out), len(ds))
        for h, d in zip(out, ds):
            set_ = set(models.ALIAS.get(v, v) for v in cols)
            if "ct" in set_: set_.add("t")
            for v in models.DOUBLES + models.INTS:
                if v in set_:
                    if v in models.INTS: mc.need(h[v] == d[v], "read-back", case, v, h[v], d[v])
                    else: mc.near(h[v], d[v], "read-back", case, v, rel=1e-8, abs_=1e-300)
                elif v == "mass": mc.near(h[v], d[v] if "pid" in set_ else 0.0, "mass", case)
                elif v == "charge": mc.near(h[v], d[v] if "pid" in set_ else 0.0, "charge", case)
                else: mc.need(h[v] == (1.0 if v == "local_weight" else 0), "not-in-file", case, v, h[v])

if __name__ == "__main__":
    mc.main(C16)
