import itertools
import mc
mc.block_root()
import numpy
from xboa.hit import Hit
from xboa.tracking import MatrixTracking, TimeoutTracking
from models import STORED

VEC = ["x", "px", "y", "py", "t", "energy"]
M = numpy.matrix
MATS = {
    "id": M(numpy.identity(6)),
    "dense": M([[(1.0 + 7 * i + 3 * j) % 11 - 5 + 0.25 * i for j in range(6)] for i in range(6)]),
    "drift": M([[1, 10, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0], [0, 0, 1, -3, 0, 0], [0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, .5], [0, 0, 0, 0, 0, 1]]),
    "swap": M(numpy.identity(6)[[2, 3, 0, 1, 4, 5]]),
    "zero": M(numpy.zeros((6, 6))),
    "neg": M(-numpy.identity(6)),
    "int": M([[2 if i == j else (1 if j == (i + 1) % 6 else 0) for j in range(6)] for i in range(6)]),
}
for i in range(6):
    for j in range(6):
        a = numpy.identity(6); a[i, j] += 2.5
        MATS["e%d%d" % (i, j)] = M(a)
OFFS = {
    "none": M([[0.0] * 6]),
    "all": M([[1.5, -2.0, 4.0, 8.0, -0.5, 300.0]]),
    "int": M([[1, 2, 3, 4, 5, 6]]),
    "beam": M([[0.0, 0.0, 0.0, 0.0, 12.0, 226.0]]),
}
for j in range(6):
    a = numpy.zeros((1, 6)); a[0, j] = 3.0
    OFFS["o%d" % j] = M(a)

class C25(mc.Check):
    pid = "C25"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of hits, maps and reference hits through the real tracking, against the defining sum evaluated element by element"
    rule = ("every hit of a lattice (signs, zeros, masses, unphysical energies) through every map of a set (every elementary 6x6 matrix, dense, singular, integer) with every "
            "pair of reference offsets, every sequence of up to 3 maps of a small set, one by one and as lists of 0-3 hits, with tracking objects used repeatedly; and all wrong shapes and types")
    assumptions = ["the sign of the longitudinal momentum is not specified (as in C13)"]
    def setup(self):
        self.hits = []
        for x, px, y, py, t, e in [(0, 0, 0, 0, 0, 200), (1, 2, 3, 4, 5, 226), (-1, 20, -3, -40, 5, 400), (0.5, 0, 0, 90, -7, 110), (3, 100, 2, 100, 1, 120)]:
            for mass, pid, ch in ((105.658, -13, 1), (0.0, 22, 0), (938.27, 2212, 1)):
                for pz in (150.0, -150.0):
                    self.hits.append(dict(x=float(x), px=float(px), y=float(y), py=float(py), t=float(t), energy=float(e), pz=pz, mass=mass, pid=pid, charge=float(ch)))
    def hit(self, k, n=1):
        d = dict(self.hits[k])
        h = Hit.new_from_dict(d)
        for i, v in enumerate(("spill", "event_number", "particle_number", "station", "status")): h[v] = 10 * n + i
        for i, v in enumerate(("z", "sx", "sy", "sz", "bx", "by", "bz", "ex", "ey", "ez", "e_dep", "pl", "proper_time", "local_weight", "path_length")):
            try: h[v] = 0.125 * (i + 1) * n
            except Exception: pass
        return h
    def cases(self):
        yield ["errors"]
        for k in range(len(self.hits)):
            for m in MATS:
                some = not (self.thorough or not m.startswith("e"))
                for o in OFFS:
                    for i in OFFS:
                        if some and not (o == i or "none" in (o, i)): continue
                        yield ["one", [k], [m], [o], i]
        small = ["dense", "drift", "swap", "zero"]
        for n in (0, 2, 3):
            for ms in itertools.product(small, repeat=n):
                for os in itertools.product(("none", "all", "beam"), repeat=n):
                    if n == 3 and not self.thorough and len(set(os)) == 1 and os[0] != "all": continue
                    for k in ((0, 8, 14, 29) if not self.thorough else range(0, len(self.hits), 2)): yield ["one", [k], list(ms), list(os), "all" if k % 2 else "beam"]
        for ks in itertools.chain.from_iterable(itertools.product((0, 7, 9, 24), repeat=r) for r in range(0, 4)):
            for ms in (["dense"], ["drift", "swap"], []):
                for kind in ("many", "timeout"): yield [kind, list(ks), ms, ["all"] * len(ms), "beam"]
        for n in (9, 40, 150):
            for kind in ("many", "timeout"):
                yield [kind, [(k * 7) % 30 for k in range(n)], ["drift", "dense"], ["all", "beam"], "all"]
            yield ["one", [n % 30], [["drift", "swap", "dense", "id", "neg"][k % 5] for k in range(n)], [["all", "none", "beam"][k % 3] for k in range(n)], "beam"]
    def vals(self, h): return [h[v] for v in STORED] + [h["local_weight"], h["global_weight"]]
    def check(self, case, h, out, ms, os, o_in):
        mc.need(len(out) == len(ms) + 1, "number-of-hits", case, len(out))
        mc.need(self.vals(out[0]) == self.vals(h), "first-is-input", case)
        u = [h[v] for v in VEC]
        obs = []
        for s, (m, o) in enumerate(zip(ms, os)):
            g = out[s + 1]
            want = [float(sum(float(MATS[m][i, j]) * (u[j] - float(OFFS[o_in][0, j])) for j in range(6)) + float(OFFS[o][0, i])) for i in range(6)]
            size = [sum(abs(float(MATS[m][i, j])) * (abs(u[j]) + abs(float(OFFS[o_in][0, j]))) for j in range(6)) + abs(float(OFFS[o][0, i])) for i in range(6)]
            for v, w, sz in zip(VEC, want, size): mc.need(abs(g[v] - w) <= 1e-12 * sz, "image", case, s, v, g[v], w)
            e2 = g["energy"] ** 2
            pz2 = e2 - g["px"] ** 2 - g["py"] ** 2 - g["mass"] ** 2
            scale = e2 + g["px"] ** 2 + g["py"] ** 2 + g["mass"] ** 2
            if abs(pz2) > 1e-9 * scale:
                if pz2 > 0: mc.need(abs(g["pz"] ** 2 - pz2) <= 1e-11 * scale, "mass-shell", case, s, g["pz"], pz2)
                else: mc.need(g["pz"] == 0.0, "unphysical", case, s, g["pz"])
            for v in STORED:
                if v not in VEC and v != "pz": mc.need(g[v] == h[v], "other-variable", case, s, v, g[v], h[v])
            mc.need(g["local_weight"] == h["local_weight"] and g["global_weight"] == h["global_weight"], "weight", case, s)
            obs.append([round(w, 6) for w in want] + [pz2 > 0])
        return obs
    def run_case(self, case):
        if case == ["errors"]: return self.errors(case)
        kind, ks, ms, os, o_in = case
        mats, offs, oin = [MATS[m].copy() for m in ms], [OFFS[o].copy() for o in os], OFFS[o_in].copy()
        args = (mats, offs, oin)
        t = TimeoutTracking(*(args + (0.0,))) if kind == "timeout" else MatrixTracking(*args)
        hs = [self.hit(k, 1 + n) for n, k in enumerate(ks)]
        before = [self.vals(h) for h in hs]
        obs = []
        if kind == "one":
            for again in range(2):
                out = t.track_one(hs[0])
                obs = self.check(case, hs[0], out, ms, os, o_in)
                mc.need(len(t.last) == 1 and [self.vals(a) for a in t.last[0]] == [self.vals(a) for a in out], "last", case)
                for n, a in enumerate(out): mc.need(a is not hs[0] and all(a is not b for b in out[:n]), "shared-hit", case, n)
        else:
            t.track_one(self.hit(3, 9))
            for again in range(2):
                out = t.track_many(hs)
                mc.need(len(out) == len(hs), "number-of-tracks", case, len(out))
                obs = [self.check(case, h, o, ms, os, o_in) for h, o in zip(hs, out)]
                mc.need(len(t.last) == len(hs) and all([self.vals(a) for a in l] == [self.vals(a) for a in o] for l, o in zip(t.last, out)), "last", case)
        mc.need([self.vals(h) for h in hs] == before, "input-changed", case)
        for a, b in zip(mats + offs + [oin], [MATS[m] for m in ms] + [OFFS[o] for o in os] + [OFFS[o_in]]): mc.need(numpy.array_equal(a, b), "maps-changed", case)
        # writing to what came back leaves the input alone
        for o in (out if kind != "one" else [out]):
            for a in o: a["x"] = 99.0
        mc.need([self.vals(h) for h in hs] == before, "aliased", case)
        mc.seen([case[1:], obs])
        mc.S.add("transitions", 2 * len(ms) * max(1, len(ks)))
        return obs or None
    def errors(self, case):
        m, o = MATS["id"], OFFS["none"]
        bad_m = [numpy.identity(6), m[0:5], m[:, 0:5], M(numpy.identity(7)), [[0.0]], 1.0, None]
        bad_o = [numpy.zeros((1, 6)), o.T, o[:, 0:5], M([[0.0] * 7]), [0.0] * 6, None]
        n = 0
        def no(f, exc, *what):
            try: f()
            except exc: return
            mc.need(False, "should-refuse", case, *what)
        for cls, extra in ((MatrixTracking, ()), (TimeoutTracking, (0.0,))):
            for a, b in itertools.product(range(4), repeat=2):
                if a != b:
                    no(lambda: cls(*(([m] * a, [o] * b, o) + extra)), IndexError, "lengths", a, b); n += 1
                else: cls(*(([m] * a, [o] * b, o) + extra))
            for pos in range(3):
                for b in bad_m:
                    l = [m] * 3; l[pos] = b
                    no(lambda: cls(*((l, [o] * 3, o) + extra)), TypeError, "matrix", pos); n += 1
                for b in bad_o:
                    l = [o] * 3; l[pos] = b
                    no(lambda: cls(*(([m] * 3, l, o) + extra)), TypeError, "offset", pos); n += 1
            for b in bad_o: no(lambda: cls(*(([m], [o], b) + extra)), TypeError, "offset in"); n += 1
        return n

if __name__ == "__main__": mc.main(C25)
