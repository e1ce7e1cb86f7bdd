import itertools, math
import numpy
import mc, models
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch
import xboa.common as Common

BETA, ALPHA, EMIT = [0.1, 1.0, 333.0, 2500.0], [0.0, 1.0, -0.7, 2.5, -3.0], [1e-3, 0.5, 6.0, 40.0]
P, MASS = [50.0, 200.0, 3000.0], [0.510998910, 105.6583668, 938.271996]
ELL = {1: [[[4.0]], [[0.25]]],
       2: [[[1.0, 0.0], [0.0, 1.0]], [[9.0, 2.0], [2.0, 1.0]], [[2.0, -1.2], [-1.2, 0.9]], [[1e4, 30.0], [30.0, 0.5]]],
       3: [[[1.0, 0, 0], [0, 4.0, 0], [0, 0, 0.25]], [[3.0, 0.5, -0.2], [0.5, 2.0, 0.3], [-0.2, 0.3, 1.0]]],
       4: [[[2.0, 0.3, 0, 0.1], [0.3, 1.0, -0.1, 0], [0, -0.1, 2.0, 0.3], [0.1, 0, 0.3, 1.0]]]}
VARS = {1: [["x"], ["px"], ["t"]], 2: [["x", "px"], ["px", "x"], ["x", "y"], ["t", "energy"], ["ct", "energy"], ["y", "pz"]],
        3: [["x", "y", "z"], ["px", "x", "t"]], 4: [["x", "px", "y", "py"]]}
DEF = [{}, {"pid": -13, "mass": 105.6583668, "pz": 200.0, "energy": 226.1939223}, {"pid": 2212, "mass": 938.271996, "pz": 100.0, "energy": 950.0, "x": 10.0,
       "px": -3.0, "t": 5.0, "station": 7, "event_number": 99, "local_weight": 0.5, "charge": 1.0}]

class C14(mc.Check):
    pid = "C14"
    level = "model_checking"
    technique = "exhaustive enumeration of ellipse and shell parameters against the defining relations"
    rule = ("all combinations over lattices of beta, alpha, emittance, momentum, mass, convention (2d) and of field, charge "
            "and canonical angular momentum (solenoid): matrix against its definition, positive definite, and the optics "
            "computed back by the bunch; all shells over dimension 1-4, 1-6 points per dimension, ellipses, variables, "
            "defaults and mass-shell variables; rejected parameters")
    def cases(self):
        b, a, e, p = BETA, ALPHA, EMIT, P
        if self.thorough: b, a, e, p = [0.01, 0.1, 1.0, 50.0, 333.0, 2500.0, 1e5], [0.0, 1.0, -1.0, -0.7, 0.3, 2.5, -3.0, 10.0], [1e-5, 1e-3, 0.5, 6.0, 40.0, 1e3], [1.0, 50.0, 139.0, 200.0, 3000.0, 1e5]
        for c in itertools.product(b, a, e, p, MASS, (True, False)): yield ["two"] + list(c)
        for c in itertools.product(b, a, e, p, MASS, (0.0, 0.002, -0.004), (0.0, 1.5, -0.25), (1.0, -1.0)): yield ["penn"] + list(c)
        for d in ELL:
            for k in range(len(ELL[d])):
                for n in range(1, (7 if self.thorough else 6) if d < 3 else 5 if d == 3 else 4):
                    for v in range(len(VARS[d])):
                        for q in range(len(DEF)):
                            for s in ("", "energy", "pz"): yield ["shell", d, k, n, v, q, s]
                    for m in range(3): yield ["raw", d, k, n, m]
        for d, n in ((1, 12), (1, 41), (1, 200), (2, 7), (2, 12), (2, 31), (3, 6), (3, 9), (4, 5)):
            if d not in ELL: continue
            for k in range(len(ELL[d])):
                for v in range(len(VARS[d])): yield ["shell", d, k, n, v, (n + v) % len(DEF), ("", "energy", "pz")[(n + k) % 3]]
                yield ["raw", d, k, n, n % 3]
        for c in itertools.product((-1.0, 0.0, 1.0), (-1.0, 0.0, 1.0), (-1.0, 0.0, 100.0)): yield ["reject"] + list(c)
    def frame(self, ell, names, p, mass, geometric):
        """A bunch that uses the ellipse as its covariances."""
        Bunch.set_geometric_momentum(geometric)
        order = Bunch.axis_list_to_covariance_list(Bunch.get_axes())
        m = numpy.eye(len(order))
        for i, u in enumerate(names):
            for j, v in enumerate(names): m[order.index(u), order.index(v)] = ell[i, j]
        b = Bunch()
        b.append(Hit.new_from_dict({"mass": mass, "pz": p, "energy": math.hypot(p, mass)}))
        b.set_covariance_matrix(True, numpy.matrix(m), {"p": p, "x": 0.0, "px": 0.0, "y": 0.0, "py": 0.0, "x'": 0.0, "y'": 0.0})
        return b
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        Bunch.set_geometric_momentum(False)
        mc.seen(case)
        try:
            return getattr(self, case[0])(case)
        finally:
            Bunch.set_geometric_momentum(False)
    def two(self, case):
        beta, alpha, emit, p, mass, geo = case[1:]
        m = Bunch.build_ellipse_2d(beta, alpha, emit, p, mass, geo)
        mc.need(m.shape == (2, 2) and m[0, 1] == m[1, 0], "symmetric", case)
        gamma = (1.0 + alpha ** 2) / beta
        k = (1.0, 1.0, 1.0) if geo else (mass / p, mass, mass * p)
        for g, w in zip((m[0, 0], m[0, 1], m[1, 1]), (beta * emit * k[0], -alpha * emit * k[1], gamma * emit * k[2])):
            mc.near(float(g), w, "definition", case, rel=1e-9, abs_=0)
        mc.need(m[0, 0] > 0 and m[1, 1] > 0 and m[0, 0] * m[1, 1] - m[0, 1] ** 2 > 0, "positive", case)
        for plane in ("x", "y"):
            b = self.frame(m, [plane, plane + "'" if geo else "p" + plane], p, mass, geo)
            for g, w, n in ((b.get_emittance([plane]), emit, "emittance"), (b.get_beta([plane]), beta, "beta"),
                            (b.get_alpha([plane]), alpha, "alpha"), (b.get_gamma([plane]), gamma, "gamma")):
                mc.near(g, w, n, case, rel=1e-6, abs_=1e-7)
        return case[1:]
    def penn(self, case):
        beta, alpha, emit, p, mass, bz, L, q = case[1:]
        m = Bunch.build_penn_ellipse(emit, mass, beta, alpha, p, L, bz, q)
        mc.need(m.shape == (4, 4) and numpy.array_equal(m, m.T), "symmetric", case, m.tolist())
        k = models.C_LIGHT * bz / 2.0 / p
        w = beta * k - L
        g = (1 + alpha ** 2 + w ** 2) / beta
        want = emit * mass * numpy.array([[beta / p, -alpha, 0, -w * q], [-alpha, p * g, w * q, 0], [0, w * q, beta / p, -alpha], [-w * q, 0, -alpha, p * g]])
        for i in range(4):
            for j in range(4): mc.near(float(m[i, j]), want[i, j], "definition", case, i, j, abs_=1e-9 * abs(want).min())
        mc.need(min(numpy.linalg.eigvalsh(numpy.array(m) / numpy.sqrt(numpy.outer(numpy.diag(m), numpy.diag(m))))) > -1e-9, "positive", case)
        b = self.frame(m, ["x", "px", "y", "py"], p, mass, False)
        cond = 1 + alpha ** 2 + w ** 2
        if cond < 1e6:
            mc.near(b.get_emittance(["x", "y"]), emit, "emittance", case, rel=1e-5)
            mc.near(b.get_beta(["x", "y"]), beta, "beta", case, rel=1e-5)
            mc.near(b.get_alpha(["x", "y"]), alpha, "alpha", case, rel=1e-5, abs_=1e-6)
            mc.near(b.get_gamma(["x", "y"]), g, "gamma", case, rel=1e-5)
        return case[1:]
    def points(self, d, n):
        """How many lattice points are away from the centre."""
        total = n ** d if n > 1 else 1
        return total - 1 if n % 2 and n > 1 else total
    def raw(self, case):
        d, k, n, m = case[1:]
        ell = numpy.matrix(ELL[d][k])
        mean = [None, numpy.zeros(d), numpy.array([1.5 - i for i in range(d)])][m]
        keep = ell.copy()
        pts = Common.make_shell(n, ell) if mean is None else Common.make_shell(n, ell, mean)
        mc.need(numpy.array_equal(keep, ell), "argument", case)
        mc.need(len(pts) == self.points(d, n), "number", case, len(pts), self.points(d, n))
        inv = numpy.linalg.inv(numpy.array(ell))
        dirs = []
        for v in pts:
            v = numpy.array(v).flatten()
            mc.need(v.shape == (d,), "shape", case)
            v = v - (mean if mean is not None else 0.0)
            mc.near(float(v.dot(inv).dot(v)), 1.0, "on-ellipse", case, rel=1e-6)
            dirs.append(v / max(abs(v)))
        # along the directions of the lattice points, each as often as the lattice has it
        line = [-1.0 + 2.0 * j / (n - 1) for j in range(n)] if n > 1 else [-1.0]
        want = [numpy.array(v) for v in itertools.product(line, repeat=d) if max(abs(x) for x in v) > 1e-9]
        key = lambda v: tuple(round(float(x), 6) + 0.0 for x in v / max(abs(v)))
        mc.need(sorted(map(key, dirs)) == sorted(map(key, want)), "directions", case)
        return case
    def shell(self, case):
        d, k, n, v, q, s = case[1:]
        ell, names, dfl = numpy.matrix(ELL[d][k]), list(VARS[d][v]), dict(DEF[q])
        if s and (s in names or not dfl): return None
        b = Bunch.new_hit_shell(n, ell, names, s, dfl) if dfl or q else Bunch.new_hit_shell(n, ell, names, s)
        mc.need(dfl == DEF[q] and names == VARS[d][v] and numpy.array_equal(ell, ELL[d][k]), "argument", case)
        mc.need(len(b) == self.points(d, n), "number", case, len(b))
        inv = numpy.linalg.inv(numpy.array(ELL[d][k]))
        base = models.World().new(**DEF[q])
        for i, h in enumerate(b.hits()):
            mc.need(h["event_number"] == i, "event-number", case, i, h["event_number"])
            u = numpy.array([h[x] - models.World().get(base, x) for x in names])
            mc.near(float(u.dot(inv).dot(u)), 1.0, "on-ellipse", case, rel=1e-5, abs_=1e-5)
            for x in models.DOUBLES + models.INTS:
                if x in names or x == "event_number" or x == s or ("ct" in names and x == "t"): continue
                mc.near(float(h[x]), float(base[x]), "default", case, x)
            if s and h[s] != 0.0:
                mc.near(h["energy"] ** 2, h["px"] ** 2 + h["py"] ** 2 + h["pz"] ** 2 + h["mass"] ** 2, "mass-shell", case, rel=1e-9)
            elif s == "energy": raise mc.Bad("mass-shell", str(case))
        return case[1:]
    def reject(self, case):
        beta, emit, mass = case[1:]
        for f, bad in ((lambda: Bunch.build_ellipse_2d(beta, 0.5, emit, 200.0, 105.0, True), beta <= 0 or emit <= 0),
                       (lambda: Bunch.build_ellipse_2d(beta, 0.5, emit, 200.0, 105.0, False), beta <= 0 or emit <= 0),
                       (lambda: Bunch.build_penn_ellipse(emit, mass, beta, 0.5, 200.0, 0.0, 0.004, 1.0), beta <= 0 or emit <= 0 or mass <= 0)):
            try: f()
            except (ValueError, ZeroDivisionError): mc.need(bad, "rejected-valid", case)
            else: mc.need(not bad, "accepted-invalid", case)
        return case

if __name__ == "__main__":
    mc.main(C14)
