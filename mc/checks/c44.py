import itertools, math
import mc
mc.block_root()
import numpy
from xboa.hit import Hit
from xboa.bunch import Bunch
import models

TOL = 2.0 ** -10
VARS = models.STORED + ["global_weight"]
BASES = [{}, {"x": 1.0, "px": -0.5, "pz": 200.0, "pid": -13, "mass": 105.6583668, "energy": 226.0, "t": 3.0, "spill": 1, "event_number": 2, "particle_number": 3, "station": 4},
         {"x": -1.0, "y": 0.5, "z": -1024.0, "t": -2.0, "px": 1.0, "py": -1.0, "pz": -8.0, "energy": 16.0, "bx": -4.0, "local_weight": 0.5, "pid": 11, "status": -1, "spill": 9, "charge": -1.0}]
STEPS = [0.0, TOL / 2, TOL, TOL * 1.125, 1.0, 2.0 ** 20]
ODD = [None, 0, "", (), [], {}, 1.5, "hit", object()]
KINDS = [dict(BASES[1], event_number=20), dict(BASES[1], event_number=21), dict(BASES[1], event_number=20, x=1.0 + TOL), dict(BASES[1], event_number=20, local_weight=0.0)]
COVS = {"none": None, "internal": "internal", "a": numpy.diag([float(i + 1) for i in range(10)]), "b": numpy.diag([float(i + 1) for i in range(10)]) + numpy.eye(10, k=1)}
MEANS = [None, {"x": 1.0}, {"x": 1.0, "y": 2.0}, {"x": 1.0 + TOL}]

class C44(mc.Check):
    pid = "C44"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of pairs of hits and of bunches that differ in every single way, by every step about the tolerance, against comparison of the stored values"
    rule = ("every variable of 3 hits moved either way by 6 steps from nothing to far beyond the tolerance, pairs of variables moved together, with given and default tolerances; all pairs of bunches of up to 3 out of 4 kinds "
            "of hit, with 4 states of covariances and 4 of means on either side; 9 things that are neither; every particle type on and off mass shell")
    assumptions = ["values are numbers (nothing is said of nan)", "the consistency check compares squares of energies rounded to 1 MeV squared, so only errors beyond that, and values clear of its edges, are looked at"]
    def setup(self):
        self.cov = {}
    def cases(self):
        for b in range(3):
            for v in VARS: yield ["one", b, v]
        pairs = list(itertools.combinations(VARS, 2))
        for k in range(0, len(pairs), 20): yield ["two", 1 + k % 2, [list(p) for p in pairs[k:k + 20]]]
        top = 5 if self.thorough else 4
        if self.thorough:
            for u in VARS:
                for b in (1, 2): yield ["two", b, [list(p) for p in pairs if u in p]]
        for n in range(0, top):
            for a in itertools.product(range(len(KINDS)), repeat=n):
                for m in range(0, top): yield ["bunch", list(a), m]
        for cs in itertools.product(COVS, repeat=2):
            for ms in itertools.product(range(len(MEANS)), repeat=2): yield ["covs", list(cs), list(ms)]
        for n in (10, 50, 300):
            for k in range(3): yield ["many", n, k]
        yield ["odd"]
        for pid in sorted(MASS): yield ["check", pid]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def hit(self, d):
        h = Hit.new_from_dict({k: v for k, v in d.items() if k != "global_weight"})
        if "global_weight" in d: h["global_weight"] = d["global_weight"]
        return h
    def pair(self, case, a, b, tol, what):
        """Both ways round, and the opposite"""
        want = all(abs(a[v] - b[v]) <= (tol if tol is not None else 1e-9) for v in VARS)
        for p, q in ((a, b), (b, a)):
            got = [p == q, not (p != q)] if tol is None else [p.__eq__(q, tol), not p.__ne__(q, tol), p.__eq__(q, float_tolerance=tol)]
            for g in got: mc.need(g is want or g == want and isinstance(g, bool), "equality of hits", case, what, "tolerance", tol, got, want)
        mc.S.add("transitions")
        return want
    def one(self, case, b, v):
        obs = set()
        for s in STEPS:
            for sign in (1, -1):
                if v in models.INTS and s != int(s): continue
                base = dict(BASES[b])
                h = self.hit(base)
                g = self.hit(base)
                if s:
                    x = h[v] + sign * s
                    if v == "global_weight":
                        g = self.hit(dict(base, event_number=base.get("event_number", 0) + 0, particle_number=base.get("particle_number", 0)))
                        g["station"] = h["station"]
                        # a weight belongs to the particle, so the two are different particles
                        g["particle_number"] = h["particle_number"] + 50
                        g["global_weight"] = x
                    else: g[v] = int(x) if v in models.INTS else x
                for tol in (None, TOL, 0.0, 2.0 ** 21, 100.0): obs.add(self.pair(case, h, g, tol, [s * sign]))
                Hit.clear_global_weights()
        return "one:%s" % sorted(obs)
    def two(self, case, b, pairs):
        for u, v in pairs:
            for i, (s, t) in enumerate(itertools.product((TOL, -1.0), (TOL * 1.125, 1.0, -TOL))):
                h, g = self.hit(BASES[b]), self.hit(BASES[b])
                for w, x in ((u, s), (v, t)):
                    if w == "global_weight": continue
                    g[w] = h[w] + (x if w not in models.INTS else int(math.copysign(1, x)))
                for tol in (TOL, None): self.pair(case, h, g, tol, [u, v, s, t])
        return "two"
    def bunches(self, case, a, b, same, what, tol=None):
        for p, q in ((a, b), (b, a)):
            got = [p == q, not (p != q)] if tol is None else [p.__eq__(q, tol), not p.__ne__(q, tol)]
            for g in got: mc.need(g == same and isinstance(g, bool), "equality of bunches", case, what, tol, g, same)
        mc.S.add("transitions")
    def bunch(self, case, a, m):
        obs = set()
        x = Bunch.new_from_hits([self.hit(KINDS[i]) for i in a])
        self.bunches(case, x, x, True, "itself")
        for c in itertools.product(range(len(KINDS)), repeat=m):
            y = Bunch.new_from_hits([self.hit(KINDS[i]) for i in c])
            for tol in (None, TOL, TOL / 2, 5.0):
                t = 1e-9 if tol is None else tol
                same = len(a) == len(c) and all(abs(KINDS[i].get(v, 1.0) - KINDS[j].get(v, 1.0)) <= t for i, j in zip(a, c) for v in ("event_number", "x", "local_weight"))
                self.bunches(case, x, y, same, [a, c], tol)
                for p, q in ((x, y), (y, x)):
                    got = p.hit_equality(q) if tol is None else p.hit_equality(q, tol)
                    mc.need(got == same and isinstance(got, bool), "equality of hits of bunches", case, a, c, tol, got, same)
                obs.add(same)
        return "bunch:%d:%s" % (len(a), sorted(obs))
    def many(self, case, n, k):
        """Long bunches that differ in one place, or in length"""
        a = [(i * (k + 1) + i // 4 + i * i // 7) % len(KINDS) for i in range(n)]
        x = Bunch.new_from_hits([self.hit(KINDS[i]) for i in a])
        self.bunches(case, x, Bunch.new_from_hits([self.hit(KINDS[i]) for i in a]), True, "copy")
        for at in sorted(set([0, 1, n // 2, n - 2, n - 1] + list(range(0, n, 7)))):
            c = a[:at] + [(a[at] + 1) % 4 if a[at] != 3 else 1] + a[at + 1:]
            y = Bunch.new_from_hits([self.hit(KINDS[i]) for i in c])
            for tol in (None, TOL, TOL / 2, 5.0):
                t = 1e-9 if tol is None else tol
                same = all(abs(KINDS[a[at]].get(v, 1.0) - KINDS[c[at]].get(v, 1.0)) <= t for v in ("event_number", "x", "local_weight"))
                self.bunches(case, x, y, same, ["at", at], tol)
                for p, q in ((x, y), (y, x)): mc.need((p.hit_equality(q) if tol is None else p.hit_equality(q, tol)) == same, "equality of hits of bunches", case, at, tol, same)
            for c in (a[:at], a[:at] + a[at + 1:], a + a[:at + 1]): self.bunches(case, x, Bunch.new_from_hits([self.hit(KINDS[i]) for i in c]), False, "length")
        return "many"
    def covs(self, case, cs, ms):
        """Covariances and means that were set count, in both directions; the hits' own equality does not see them."""
        bs = []
        for c, m in zip(cs, ms):
            b = Bunch.new_from_hits([self.hit(dict(KINDS[i % 2], x=float(i * i), px=0.5 * i, y=-i * 1.5, pz=200.0 + i % 2)) for i in range(5)])
            if c == "internal": b.set_covariance_matrix()
            elif c != "none" or m: b.set_covariance_matrix(True, COVS[c], dict(MEANS[m] or {})) if c != "none" else None
            bs.append(b)
        key = [(c, m if c in ("a", "b") else 0) for c, m in zip(cs, ms)]
        for tol in (None, TOL * 2):
            near = key[0] == key[1] or (tol and key[0][0] == key[1][0] and sorted((key[0][1], key[1][1])) == [1, 3])
            self.bunches(case, bs[0], bs[1], bool(near), key, tol)
        for p, q in (bs, bs[::-1]): mc.need(p.hit_equality(q) is True, "equality of hits of bunches", case, key)
        return "covs:%s" % (key[0] == key[1])
    def odd(self, case):
        h, b = self.hit(BASES[1]), Bunch.new_from_hits([self.hit(BASES[1])])
        for o in ODD + [h.dict_from_hit(), [h]]:
            for x in (h, b):
                mc.need((x == o) is False and (x != o) is True, "equal to something else", case, o)
        mc.need(not (h == b) and not (b == h) and h != b and b != h, "hit equal to bunch", case)
        return "odd"
    def check(self, case, pid):
        m = MASS[pid]
        obs = set()
        for px, py, pz in ((0.0, 0.0, 200.0), (3.25, -4.0, 150.5), (0.0, 0.0, 0.0), (-1000.0, 2.0, -500.0), (0.5, 0.0, 1e4)):
            e = math.sqrt(m * m + px * px + py * py + pz * pz)
            if abs((e * e) % 1 - 0.5) < 1e-3: continue
            for dm in (0.0, 5e-4, -5e-4, 0.01, -0.01, 50.0):
                if dm and abs(dm) < 1e-3 and abs((e * e + 2 * m * dm) % 1 - 0.5) < 1e-2: continue
                for de in (0.0, 2.0, -2.0, 100.0):
                    h = Hit.new_from_dict({"pid": pid, "mass": m + dm, "px": px, "py": py, "pz": pz})
                    h["energy"] = math.sqrt((m + dm) ** 2 + px * px + py * py + pz * pz) + de
                    if abs((h["energy"] ** 2) % 1 - 0.5) < 1e-3 or abs(h["energy"] ** 2 - (h["p"] ** 2 + h["mass"] ** 2)) < 2 and de: continue
                    before = [h[v] for v in models.STORED]
                    got = h.check()
                    mc.need(got is (abs(dm) < 1e-3 and de == 0.0), "consistency check", case, px, py, pz, "mass by", dm, "energy by", de, got)
                    mc.need([h[v] for v in models.STORED] == before, "check changed the hit", case)
                    obs.add(got)
                    mc.S.add("transitions")
        return "check:%s" % sorted(obs)
MASS = {11: 0.510998910, -11: 0.510998910, 13: 105.6583668, -13: 105.6583668, 211: 139.57018, -211: 139.57018, 2212: 938.271996, 321: 493.667, 2112: 939.56536, 22: 0.0}

if __name__ == "__main__": mc.main(C44)
