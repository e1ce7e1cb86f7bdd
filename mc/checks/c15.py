import itertools, math, os
import mc, models, iofmt
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch
import xboa.common as common

V = [0.0, 1.0, -2.5, 1e-7, -1e-12, 1e9, 0.1, -333.3333333333333]
INTV = [0, 1, -1, 7, 1000000, 1000001, 2147483647, -2147483648]
COMMENTS = [None, "", "a comment", "cm", "# hash", "0 0 0", "x" * 300]

class C15(mc.Check):
    pid = "C15"
    level = "model_checking"
    technique = "exhaustive enumeration of hit lists, formats and configurations through the real writers and readers"
    rule = ("for all 5 line-based formats: every variable at every lattice value; every particle type the format can carry; "
            "all lists of up to 4 hits over stations and identities (order and ties); header comments; the three writers and "
            "one-hit handles; g4beamline length units, changed between writing and reading; hits in memory compared before "
            "and after")
    assumptions = ["header comments are one line", "the length unit is mm or cm when it is changed between writing and reading (the format's reader knows only these)"]
    def cases(self):
        for fmt in iofmt.FORMATS:
            for var in iofmt.carried(fmt):
                for v in range(8):
                    for pid in sorted(iofmt.MASS): yield ["value", fmt, var, v, pid]
            for pid in range(-24, 24): yield ["pid", fmt, pid]
            n = 5 if self.thorough else 4
            for k in range(0, n + 1):
                for st in itertools.product((0, 1, 3, -2) if k < 4 else (0, 1, 3), repeat=k):
                    for w in range(3): yield ["list", fmt, list(st), w]
            for k in (9, 33, 130, 520, 1100):
                for w in range(3): yield ["list", fmt, [(i * i + i // 3) % 5 - 1 for i in range(k)], w]
            for c in range(len(COMMENTS)):
                for k in range(3): yield ["comment", fmt, c, k]
            for a, b in itertools.product(range(8), repeat=2): yield ["pair", fmt, a, b]
        for fmt in ("g4beamline_bl_track_file", "g4beamline_bl_track_file_2"):
            for us in itertools.product(("mm", "cm"), repeat=3):
                for k in (1, 3): yield ["unit", fmt, list(us), k]
            for u in ("m", "km", "mum"): yield ["unit", fmt, [u, u, u], 2]
    def setup(self):
        self.n = 0
    def hit(self, kw):
        w = models.World()
        d = iofmt.on_shell(w.new(**kw))
        h = Hit.new_from_dict({k: v for k, v in d.items()})
        return h, d
    def compare(self, case, hits, ds, fmt, bunch):
        mc.need(len(bunch) == len(ds), "number-of-hits", case, "got", len(bunch), "want", len(ds))
        car = iofmt.carried(fmt)
        for i, (h, d) in enumerate(zip(bunch, ds)):
            mc.need(h["pid"] == d["pid"], "pid", case, i, h["pid"], d["pid"])
            for v in models.DOUBLES + models.INTS:
                if v in car or v in ("mass", "charge", "energy", "pid"):
                    if v in models.INTS: mc.need(h[v] == d[v], "value", case, i, v, h[v], d[v])
                    else: mc.near(h[v], float(d[v]), "value", case, i, v, rel=1e-9, abs_=1e-300 if d[v] else 1e-30)
                else:
                    mc.need(h[v] == (1.0 if v == "local_weight" else 0), "not-carried", case, i, v, h[v])
            mc.need(h["global_weight"] == 1.0, "global-weight", case)
        for h, d in zip(hits, ds):
            for v in models.DOUBLES + models.INTS:
                mc.need(h[v] == d[v], "hit-in-memory-changed", case, v, h[v], d[v])
    def path(self):
        self.n += 1
        return "w%d_%d.dat" % (os.getpid(), self.n % 50)
    def trip(self, case, fmt, hits, ds, writer=0, comment=None, order=True):
        name = self.path()
        args = [] if comment is None and writer != 1 else [comment]
        if writer == 0:
            b = Bunch.new_from_hits(hits)
            held = [b.hits()]
        elif writer == 1:
            arg = list(hits)
            held = [arg]
        else:
            parts = {k: Bunch() for k in range(2)}
            for k, h in enumerate(hits): parts[k * 2 // max(1, len(hits))].append(h)
            held = [parts[0].hits(), parts[1].hits()]
        before = [[id(h) for h in l] for l in held]
        if writer == 0: b.hit_write_builtin(fmt, name, *args)
        elif writer == 1: Hit.write_list_builtin_formatted(arg, fmt, name, comment)
        else: Bunch.hit_write_builtin_from_dict(parts, fmt, name, *args)
        if writer == 1: after = [arg]
        else: after = [b.hits()] if writer == 0 else [parts[0].hits(), parts[1].hits()]
        mc.need([[id(h) for h in l] for l in after] == before, "written-list-changed", case, writer)
        try:
            out = Bunch.new_from_read_builtin(fmt, name)
        finally:
            os.remove(name)
        want = sorted(ds, key=lambda d: d["station"]) if order else ds
        self.compare(case, [], want, fmt, out)
        for h, d in zip(hits, ds):
            for v in models.DOUBLES + models.INTS: mc.need(h[v] == d[v], "hit-in-memory-changed", case, v, h[v], d[v])
        return out
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        Hit.set_g4bl_unit("mm")
        fmt = case[1]
        mc.seen(case)
        base = dict(x=1.5, y=-2.5, z=1000.0, t=3.5, px=10.0, py=-20.0, pz=200.0, pid=-13, event_number=3, particle_number=2, station=0)
        if case[0] == "value":
            var, v, pid = case[2:]
            kw = dict(base, pid=pid)
            kw[var] = INTV[v] if var in models.INTS else V[v]
            h, d = self.hit(kw)
            self.trip(case, fmt, [h], [d], v % 3)
            # one hit through an open handle
            name = self.path()
            with open(name, "w") as f:
                h.write_builtin_formatted(fmt, f)
                h.write_builtin_formatted(fmt, f)
            with open(name) as f: got = [Hit.new_from_read_builtin(fmt, f), Hit.new_from_read_builtin(fmt, f)]
            os.remove(name)
            self.compare(case, [h], [d, d], fmt, got)
            return case
        if case[0] == "pid":
            pids = sorted(set(common.pdg_pid_to_charge) & set(k * s for k in common.pdg_pid_to_mass for s in (1, -1)))
            if not -len(pids) <= case[2] < len(pids): return None
            pid = pids[case[2]]
            if "icool" in fmt and common.icool_pid_to_pdg.get(common.pdg_pid_to_icool.get(pid)) != pid: return None
            if "mars" in fmt and common.mars_pid_to_pdg.get(common.pdg_pid_to_mars.get(pid)) != pid: return None
            d = models.World().new(**dict(base, pid=pid))
            d["mass"] = float(common.pdg_pid_to_mass[abs(pid)])
            d["charge"] = float(common.pdg_pid_to_charge[pid])
            d["energy"] = math.sqrt(d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2 + d["mass"] ** 2)
            h = Hit.new_from_dict(dict(d))
            self.trip(case, fmt, [h], [d], case[2] % 3)
            return [fmt, pid]
        if case[0] in ("list", "comment"):
            hits, ds = [], []
            st = case[2] if case[0] == "list" else [2, 1, 2][:case[3]]
            for k, s in enumerate(st):
                h, d = self.hit(dict(base, station=s, event_number=10 - k % 3, particle_number=k, x=float(k), local_weight=0.5 * k, pid=[-13, 2212, -211][k % 3]))
                hits.append(h)
                ds.append(d)
            if case[0] == "list": self.trip(case, fmt, hits, ds, case[3])
            else:
                for w in range(3): self.trip(case, fmt, hits, ds, w, COMMENTS[case[2]])
            return case
        if case[0] == "pair":
            hits, ds = [], []
            for k, n in enumerate(case[2:]):
                kw = dict(base, station=k)
                for j, var in enumerate(iofmt.carried(fmt)):
                    if var == "station": continue
                    kw[var] = INTV[(n + j) % 8] if var in models.INTS else V[(n + 3 * j) % 8]
                h, d = self.hit(kw)
                hits.append(h)
                ds.append(d)
            self.trip(case, fmt, hits, ds, 1)
            self.trip(case, fmt, [hits[0], hits[1], Hit.new_from_dict(dict(ds[0])), hits[1]], [ds[0], ds[1], ds[0], ds[1]], (case[2] + case[3]) % 3)
            return case
        # length units of g4beamline files, with other files read in between
        us, n = case[2:]
        hits, ds = [], []
        for k in range(n):
            h, d = self.hit(dict(base, x=1.25 * (k + 1), y=-3.0, z=1e3, station=k))
            hits.append(h)
            ds.append(d)
        names = []
        try:
            for u in us:
                Hit.set_g4bl_unit(u)
                names.append(self.path())
                Bunch.new_from_hits(hits).hit_write_builtin(fmt, names[-1])
                with open(names[-1]) as f:
                    lines = [l for l in f if l[0] != "#"]
                mc.need(len(lines) == n, "lines", case)
                for l, d in zip(lines, ds):
                    for k, v in enumerate(("x", "y", "z")): mc.near(float(l.split()[k]), d[v] / common.units[u], "column", case, v, u)
            for m in names + names[:1]:
                out = Bunch.new_from_read_builtin(fmt, m)
                self.compare(case, hits, ds, fmt, out)
        finally:
            Hit.set_g4bl_unit("mm")
            for m in names: os.remove(m)
        return case

if __name__ == "__main__":
    mc.main(C15)
