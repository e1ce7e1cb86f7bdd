import io, itertools, math, os
import mc, models, iofmt
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

# particles by (event, particle, station, pid); the lattice the files are drawn from
ALPHABET = [(1, 1, 1, -13), (1, 2, 3, 211), (2, 1, 1, -13), (2, 2, -2, 2212)]
TESTS = [None, lambda h: True, lambda h: False, lambda h: h["station"] == 1, lambda h: h["pid"] != -13, lambda h: h["x"] > 1.5]
MODEL = [None, lambda d: True, lambda d: False, lambda d: d["station"] == 1, lambda d: d["pid"] != -13, lambda d: d["x"] > 1.5]
INDEX = ["station", "event_number", "particle_number", "pid", "status", "spill", "eventNumber"]

class C18(mc.Check):
    pid = "C18"
    level = "model_checking"
    technique = "exhaustive enumeration of files, limits, filters, globs and indexing variables through the real readers"
    rule = ("every file of up to 4 (thorough 5) hits over 4 kinds differing in event, particle, station and type, in 5 formats and a user "
            "format: every limit from none to beyond the end with 6 test functions; dictionaries and lists of bunches by 6 indexing "
            "variables with 6 test functions; every way to cut the file into up to 3 files under one glob; split of the bunch in memory")
    assumptions = ["the files of one glob are read in the order the file system lists them", "indexing variables are integers"]
    def cases(self):
        for n in range(0, 6 if self.thorough else 5):
            for ks in itertools.product(range(len(ALPHABET)), repeat=n):
                for fmt in range(len(iofmt.FORMATS) + 1):
                    yield [fmt, list(ks)]
        for n in (9, 30, 75):
            for fmt in range(len(iofmt.FORMATS) + 1): yield [fmt, [(k * k + k // 3) % 4 for k in range(n)]]
    def compare(self, case, bunch, ds, fmt, what):
        mc.need(len(bunch) == len(ds), "number-of-hits", case, what, "got", len(bunch), "want", len(ds))
        car = [v for v in iofmt.carried(fmt) if fmt in iofmt.COLS] if fmt in iofmt.COLS else ["event_number", "particle_number", "station", "pid", "x"]
        for i, (h, d) in enumerate(zip(bunch, ds)):
            for v in car + ["pid"]:
                if v in models.INTS: mc.need(h[v] == d[v], "wrong-hit", case, what, i, v, h[v], d[v])
                else: mc.near(h[v], d[v], "wrong-hit", case, what, i, v, abs_=1e-12)
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        Hit.set_g4bl_unit("mm")
        fmt = (iofmt.FORMATS + ["user"])[case[0]]
        w = models.World()
        ds = []
        for i, k in enumerate(case[1]):
            a = ALPHABET[k]
            ds.append(iofmt.on_shell(w.new(event_number=a[0], particle_number=a[1], station=a[2], pid=a[3], status=k % 2, x=float(i), pz=100.0)))
        hits = [Hit.new_from_dict(dict(d)) for d in ds]
        tag = "s%d_" % os.getpid()
        names = []
        cols, units = ["event_number", "particle_number", "station", "pid", "x"], {"x": "mm"}
        def write(part, name):
            names.append(name)
            if fmt == "user":
                with open(name, "w") as f:
                    for h in part: h.write_user_formatted(cols, {k: "" for k in cols[:4]} | units, f)
            else: Hit.write_list_builtin_formatted(part, fmt, name)
        try:
            # written hits are ordered by station, except by the user writer
            order = (lambda x: sorted(x, key=lambda d: d["station"])) if fmt != "user" else list
            write(hits, tag + "a.dat")
            mem = order(ds)
            # read what the format carries: variables not in the file read as zero
            carried = iofmt.carried(fmt) if fmt != "user" else cols
            full = [dict({v: (0 if v in models.INTS else 0.0) for v in models.STORED}, **{v: d[v] for v in list(carried) + ["pid"]}) for d in mem]
            def read(limit, t):
                if fmt == "user":
                    with open(tag + "a.dat") as f: return Bunch.new_from_read_user(cols, units, f, 0, TESTS[t], limit)
                return Bunch.new_from_read_builtin(fmt, tag + "a.dat", TESTS[t], limit)
            for t in range(len(TESTS)):
                sel = [d for d in full if MODEL[t] is None or MODEL[t](d)]
                for limit in range(-1, len(ds) + 2):
                    want = sel if limit < 0 else sel[:limit]
                    self.compare(case, read(limit, t), want, fmt, ["limit", limit, "test", t])
                    mc.S.add("transitions")
            if 0 < len(ds) < 4:
                # the same file with a line that is no hit among the others, at every place
                with open(tag + "a.dat") as f: lines = f.readlines()
                for place in range(len(ds) + 1):
                    with open(tag + "a.dat", "w") as f: f.writelines(lines[:len(lines) - place] + ["no hit\n"] + lines[len(lines) - place:])
                    for t in (0, 3):
                        sel = [d for d in full if MODEL[t] is None or MODEL[t](d)]
                        for limit in range(-1, len(ds) + 2):
                            self.compare(case, read(limit, t), sel if limit < 0 else sel[:limit], fmt, ["no hit at", place, "limit", limit, "test", t])
                            mc.S.add("transitions")
                with open(tag + "a.dat", "w") as f: f.writelines(lines)
            if fmt != "user":
                for v in INDEX:
                    m = models.ALIAS.get(v, v)
                    for t in range(len(TESTS)):
                        sel = [d for d in full if MODEL[t] is None or MODEL[t](d)]
                        keys = sorted(set(d[m] for d in sel))
                        got = Bunch.new_dict_from_read_builtin(fmt, tag + "a.dat", v, TESTS[t])
                        mc.need(sorted(got) == keys, "dictionary-keys", case, v, t, sorted(got), keys)
                        for k in keys: self.compare(case, got[k], [d for d in sel if d[m] == k], fmt, ["dict", v, t, k])
                        lst = Bunch.new_list_from_read_builtin(fmt, tag + "a.dat", v, TESTS[t])
                        mc.need(len(lst) == len(keys), "list-length", case, v, t)
                        for k, b in zip(keys, lst): self.compare(case, b, [d for d in sel if d[m] == k], fmt, ["list", v, t, k])
                        mc.S.add("transitions", 2)
                # defaults: station
                got = Bunch.new_dict_from_read_builtin(fmt, tag + "a.dat")
                mc.need(sorted(got) == sorted(set(d["station"] for d in full)), "default-index", case)
                for k in got: self.compare(case, got[k], [d for d in full if d["station"] == k], fmt, ["default", k])
                lst = Bunch.new_list_from_read_builtin(fmt, tag + "a.dat")
                mc.need([b[0]["station"] for b in lst] == sorted(got), "default-index", case)
                self.globs(case, fmt, hits, ds, tag, write, order, carried)
            # split in memory
            b = Bunch.new_from_hits(hits)
            for v in INDEX:
                m = models.ALIAS.get(v, v)
                parts = b.split(v)
                mc.need(sorted(parts) == sorted(set(d[m] for d in ds)), "split-keys", case, v)
                for k in parts:
                    want = [d for d in ds if d[m] == k]
                    mc.need(len(parts[k]) == len(want), "split-length", case, v)
                    for h, d in zip(parts[k], want):
                        for q in models.STORED: mc.need(h[q] == d[q], "split-hit", case, v, q)
                    if len(want): mc.near(parts[k].moment(["x"], [0.0]) if False else parts[k].mean(["x"])["x"], sum(d["x"] for d in want) / len(want), "split-statistics", case)
                mc.need(len(b) == len(ds), "split-changes-bunch", case)
                for h, d in zip(b, ds):
                    for q in models.STORED: mc.need(h[q] == d[q], "split-changes-bunch", case, v, q)
        finally:
            for n in set(names): os.remove(n)
        mc.seen(case)
        return case
    def globs(self, case, fmt, hits, ds, tag, write, order, carried):
        n = len(ds)
        cuts = range(n + 1) if n < 9 else (0, n // 3, n - 1)
        for a in cuts:
            for b in cuts:
                if b < a: continue
                parts = [hits[:a], hits[a:b], hits[b:]]
                dps = [order(ds[:a]), order(ds[a:b]), order(ds[b:])]
                mine = []
                for i, p in enumerate(parts):
                    mine.append("g%s%d.dat" % (tag, i))
                    write(p, mine[-1])
                pat = "g%s?.dat" % tag
                got = Bunch.new_from_read_builtin(fmt, pat)
                for perm in itertools.permutations(range(3)):
                    full = [dict({v: (0 if v in models.INTS else 0.0) for v in models.STORED}, **{v: d[v] for v in list(carried) + ["pid"]}) for i in perm for d in dps[i]]
                    if [h["x"] for h in got] == [d["x"] for d in full]: break
                else: mc.need(False, "glob", case, [h["x"] for h in got])
                self.compare(case, got, full, fmt, ["glob", a, b])
                for t in (0, 3, 5) if len(ds) < 4 or self.thorough else (3,):
                    sel = [d for d in full if MODEL[t] is None or MODEL[t](d)]
                    for limit in range(0, n + 2):
                        self.compare(case, Bunch.new_from_read_builtin(fmt, pat, TESTS[t], limit), sel[:limit], fmt, ["glob", a, b, "limit", limit, t])
                        mc.S.add("transitions")
                got = Bunch.new_dict_from_read_builtin(fmt, pat, "event_number")
                for k in got: self.compare(case, got[k], [d for d in full if d["event_number"] == k], fmt, ["globdict", k])
                mc.need(sorted(got) == sorted(set(d["event_number"] for d in full)), "dictionary-keys", case, "glob")

if __name__ == "__main__":
    mc.main(C18)
