import itertools, math
import numpy
import mc, models
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

MASS = {-13: 105.6583668, 11: 0.510998910, 2212: 938.271996}
C = models.C_LIGHT
# positions and momenta of the palette; energy follows from the mass
PAL = [(0.0, 0.0, 0.0, 0.0, 0.0, 200.0, 0.0), (1.0, -2.0, 3.0, 5.0, 10.0, 210.0, 0.5), (-4.0, 7.0, 1.0, -1.0, -5.0, 190.0, -0.25),
       (2.5, 3.0, -6.0, 2.0, 2.0, 230.0, 1.5), (-1.0, -11.0, 2.0, 8.0, 0.0, 205.0, -2.0), (3.0, 6.0, 5.0, -4.0, 1.0, 185.0, 0.75),
       (-2.0, 1.0, -3.0, -9.0, 7.0, 220.0, 0.1), (5.0, -3.0, -1.0, 4.0, -8.0, 195.0, -1.0), (10.5, 13.0, 8.0, 12.0, 3.0, 240.0, 3.0)]
PLANES = [["x"], ["y"], ["z"], ["t"], ["ct"], ["x", "y"], ["y", "x"], ["x", "t"], ["x", "y", "ct"], ["t", "y", "x"]]
LW = {0: [1.0] * 9, 1: [1.0, 0.5, 2.0, 1.0, 3.0, 1.0, 0.25, 1.0, 1.0], 2: [1.0, 1.0, 0.0, 2.0, 1.0, 0.5, 0.0, 1.0, 1.0]}
ALL = ["x", "y", "z", "t", "ct"]
NAMES = ["emittance", "beta", "alpha", "gamma", "dispersion", "dispersion_prime", "angular_momentum", "mean", "moment",
         "bunch_weight", "standard_deviation"]

def conj(axis, geometric):
    if geometric: return axis + "'"
    return "energy" if axis in ("t", "ct") else "p" + axis

class C10(mc.Check):
    pid = "C10"
    level = "model_checking"
    technique = "exhaustive enumeration of small weighted bunches and settings against the defining formulas"
    rule = ("all 4, 5 and 6 hit selections from 9 phase-space points, 3 weightings, 3 particle types, kinetic and geometric "
            "convention (by argument and by default) and 5 explicit-covariance settings; every optics function over 10 axis "
            "lists, angular momenta over 4 axes, amplitudes of inside and outside hits, and the same by name and in lists, "
            "compared with the definitions")
    assumptions = ["covariances set explicitly are in the convention in force when they are used",
                   "numpy determinants and inverses are correct"]
    def cases(self):
        for n in (4, 5, 6) if self.thorough else (5, 6):
            for k, sel in enumerate(itertools.combinations(range(9), n)):
                if n == 6 and not self.thorough and k % 3: continue
                for wt in (0, 1, 2):
                    for geo in (0, 1, 2):
                        for mode in range(5):
                            pid = [-13, 11, 2212][(sum(sel) + wt + mode) % 3]
                            if self.thorough:
                                for pid in MASS: yield [list(sel), wt, geo, mode, pid]
                            else: yield [list(sel), wt, geo, mode, pid]
        for n in (12, 40, 150):
            sel = [(3 * k + k // 5) % 9 for k in range(n)]
            for wt, geo, mode in itertools.product((0, 1, 2), (0, 1, 2), range(5)): yield [sel, wt, geo, mode, [-13, 11, 2212][(n + wt + mode) % 3]]
        for bad in range(4): yield ["bad", bad]
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        Bunch.set_geometric_momentum(False)
        try:
            if case[0] == "bad": return self.bad(case)
            return self.optics(case)
        finally:
            Bunch.set_geometric_momentum(False)
    def bunch(self, sel, wt, pid):
        w = models.World()
        b = Bunch()
        for n, k in enumerate(sel):
            x, px, y, py, z, pz, t = PAL[k]
            kw = dict(x=x, px=px, y=y, py=py, z=z, pz=pz, t=t, mass=MASS[pid], pid=pid, charge=1.0, bz=0.004 - 0.0005 * n,
                      energy=math.sqrt(px * px + py * py + pz * pz + MASS[pid] ** 2), event_number=n + 1, local_weight=LW[wt][k])
            b.append(Hit.new_from_dict(dict(kw)))
            w.new(**kw)
        return b, w
    def bad(self, case):
        b, w = self.bunch([0, 1, 2, 3, 4], 0, -13)
        k = case[1]
        f = [lambda: b.get("nonsense", ["x"]), lambda: b.get_emittance(["q"]), lambda: b.get_beta(["px"]),
             lambda: Bunch.convert_string_to_axis_list("x q")][k]
        try: f()
        except (KeyError, IndexError): return case
        raise mc.Bad("bad-name", str(case))
    def optics(self, case):
        sel, wt, geo, mode, pid = case
        b, w = self.bunch(sel, wt, pid)
        geometric = geo > 0
        arg = {}
        if geo == 1: Bunch.set_geometric_momentum(True)     # by default setting
        elif geo == 2:
            if mode != 0: return None                       # explicit covariances follow the default convention
            arg = {"geometric": True}                       # by argument
        mc.need(Bunch.get_geometric_momentum() == (geo == 1), "flag")
        wts = [w.get(d, "weight") for d in w.hits]
        tot = sum(wts)
        def raw(axes, means):
            s = 0.0
            for d, wgt in zip(w.hits, wts):
                a = wgt
                for v in axes: a *= w.get(d, v) - means.get(v, 0.0)
                s += a
            return s / tot
        varl = [v for a in ALL for v in (a, conj(a, geometric))]
        mean = {v: raw([v], {}) for v in varl + ["energy", "p", "pz", "px", "py", "x'", "y'"]}
        data_mean = dict(mean)
        table = {(u, v): raw([u, v], mean) for u in varl for v in varl}
        if mode == 1:
            if sum(sel) % 3 == 0:
                # set for the bunch as it was before, then again for the bunch as it is now
                kept = b[0]["x"], b[0]["px"], b[1]["energy"], b[2]["local_weight"]
                b[0]["x"], b[0]["px"], b[1]["energy"], b[2]["local_weight"] = 57.0, -31.0, 700.0, 4.5
                b.set_covariance_matrix()
                b[0]["x"], b[0]["px"], b[1]["energy"], b[2]["local_weight"] = kept
            elif sum(sel) % 3 == 1: b.set_covariance_matrix(True, numpy.matrix(numpy.eye(10) * 7), {"x": 100.0, "p": 3.0, "energy": 50.0})
            b.set_covariance_matrix()
        elif mode in (2, 3):
            # an explicit matrix unrelated to the data
            m = numpy.zeros((10, 10))
            for i in range(10):
                for j in range(10): m[i, j] = 0.3 * ((i + j) % 3) + 0.1 * abs(i - j) + (12.0 + i if i == j else 0.0)
            # the two entries for energy are one variable
            for i in range(10):
                for p, q in ((9, 7),):
                    if not geometric: m[p, i] = m[q, i]; m[i, p] = m[i, q]
            if not geometric: m[9, 9] = m[7, 7]; m[7, 9] = m[9, 7] = m[7, 7]
            table = {(u, v): float(m[varl.index(u), varl.index(v)]) for u in varl for v in varl}
            if mode == 2: b.set_covariance_matrix(True, numpy.matrix(m))
            else:
                mean = {v: 0.5 * k - 2.0 for k, v in enumerate(mean)}
                mean["p"] = 321.0
                mean["energy"] = 400.0
                b.set_covariance_matrix(True, numpy.matrix(m), dict(mean))
        elif mode == 4:
            b.set_covariance_matrix(True, numpy.matrix(numpy.eye(10) * 7), {"x": 100.0, "p": 3.0})
            b.set_covariance_matrix(False)
        mc.need(b.covariances_set() == (mode in (1, 2, 3)), "covariances-set", case)
        mc.need(b.means_set() == (mode in (1, 2, 3)), "means-set", case)
        mass = MASS[pid]
        out = []
        def eps(axes):
            vs = [v for a in axes for v in (a, conj(a, geometric))]
            V = numpy.array([[table[u, v] for v in vs] for u in vs])
            d = numpy.linalg.det(V)
            scale = numpy.prod([max(1e-300, V[i, i]) for i in range(len(V))])
            return d, scale, V, vs
        for axes in PLANES:
            if geometric and "z" in axes: continue
            d, scale, V, vs = eps(axes)
            if d < 1e-9 * scale: continue
            e = d ** (1.0 / len(vs)) / (1.0 if geometric else mass)
            mc.near(b.get_emittance(list(axes), **arg), e, "emittance", case, axes, rel=1e-6)
            n = len(axes)
            p = mean["p"]
            vx = sum(table[a, a] for a in axes)
            vp = sum(table[conj(a, geometric), conj(a, geometric)] for a in axes)
            cx = sum(table[a, conj(a, geometric)] for a in axes)
            if geometric: want = (vx / (e * n), -cx / (e * n), vp / (e * n))
            else: want = (vx * p / (e * mass * n), -cx / (e * mass * n), vp / (p * e * mass * n))
            got = (b.get_beta(list(axes), **arg), b.get_alpha(list(axes), **arg), b.get_gamma(list(axes), **arg))
            for g, x, name in zip(got, want, ("beta", "alpha", "gamma")):
                mc.near(g, x, name, case, axes, rel=1e-6)
            if n == 1: mc.near(got[0] * got[2] - got[1] ** 2, 1.0, "beta-gamma", case, axes, rel=1e-4 * max(1.0, got[1] ** 2))
            if not arg:
                for name, x in zip(("emittance", "beta", "alpha", "gamma"), (e,) + want):
                    mc.near(b.get(name, list(axes)), x, "by-name", case, axes, name, rel=1e-6)
            if not arg or geometric:
                # an explicit matrix argument wins
                U = numpy.matrix(V * 4.0)
                mc.near(b.get_emittance(list(axes), U, geometric), e * 4.0, "explicit-matrix", case, axes, rel=1e-6)
                mc.need(numpy.array_equal(U, V * 4.0), "matrix-argument", case)
            # amplitudes
            inv = numpy.linalg.inv(V)
            if numpy.linalg.cond(V) < 1e11:
                for k in (0, 3, 8):
                    x, px, y, py, z, pz, t = PAL[k]
                    dct = models.World().new(x=x, px=px, y=y, py=py, z=z, pz=pz, t=t, mass=mass,
                                             energy=math.sqrt(px * px + py * py + pz * pz + mass ** 2))
                    hit = Hit.new_from_dict(dict(dct))
                    u = numpy.array([models.World().get(dct, v) - mean[v] for v in vs])
                    amp = e * float(u.dot(inv).dot(u))
                    mc.near(Bunch.get_amplitude(b, hit, list(axes), **arg), amp, "amplitude", case, axes, k, rel=1e-5)
                    if not arg:
                        mc.near(b.get_hit_variable(hit, "amplitude " + " ".join(axes)), amp, "amplitude-name", case, axes, k, rel=1e-5)
                    if k == 3:
                        given = {v: 0.25 for v in vs}
                        u = numpy.array([models.World().get(dct, v) - 0.25 for v in vs])
                        amp = e * 4.0 * float(u.dot(inv).dot(u)) / 4.0
                        mc.near(Bunch.get_amplitude(b, hit, list(axes), numpy.matrix(4.0 * V), given, geometric), amp,
                                "amplitude-explicit", case, axes, rel=1e-5)
                        mc.need(given == {v: 0.25 for v in vs}, "mean-argument", case)
                if not arg and axes in (["x"], ["x", "y"], ["ct"]):
                    lst = b.list_get_hit_variable(["amplitude " + " ".join(axes), "x"])
                    mc.need(len(lst) == 2 and len(lst[0]) == len(sel), "list-length", case)
                    for d0, a in zip(w.hits, lst[0]):
                        u = numpy.array([w.get(d0, v) - mean[v] for v in vs])
                        mc.near(a, e * float(u.dot(inv).dot(u)), "amplitude-list", case, axes, rel=1e-5)
            out.append([round(e, 6)] + [round(x, 5) for x in got])
        # dispersion
        if not geometric:
            ve, me = table["energy", "energy"], mean["energy"]
            for a in ("x", "y"):
                d = table[a, "energy"] * me / ve
                dp = table["p" + a, "energy"] * me / ve
                mc.near(b.get_dispersion(a), d, "dispersion", case, a, rel=1e-6)
                mc.near(b.get_dispersion_prime(a), dp, "dispersion-prime", case, a, rel=1e-6)
                mc.near(b.get("dispersion", [a]), d, "dispersion-name", case, a, rel=1e-6)
                mc.near(b.get("dispersion_prime", [a]), dp, "dispersion-prime-name", case, a, rel=1e-6)
        elif mode in (0, 4):
            ve, me = raw(["energy"] * 2, mean), mean["energy"]
            for a in ("x", "y"):
                mc.near(b.get_dispersion(a), raw([a, "energy"], mean) * me / ve, "dispersion", case, a, rel=1e-6)
                if arg: mc.near(b.get_dispersion_prime(a, True), raw([a + "'", "energy"], mean) * me / ve, "dispersion-prime", case, rel=1e-6)
                else: mc.near(b.get_dispersion_prime(a), raw([a + "'", "energy"], mean) * me / ve, "dispersion-prime", case, rel=1e-6)
        # angular momentum, about axes
        if mode in (0, 4) and geo != 2:
            for axis in (None, {"x": 0.0, "y": 0.0, "px": 0.0, "py": 0.0, "x'": 0.0, "y'": 0.0},
                         {"x": 1.5, "y": -2.0, "px": 0.5, "py": 3.0, "x'": 0.01, "y'": -0.02}):
                o = axis or {}
                if geometric: L = (raw(["x", "y'"], o) - raw(["y", "x'"], o)) * mean["pz"]
                else: L = raw(["x", "py"], o) - raw(["y", "px"], o)
                mc.near(b.get_kinetic_angular_momentum() if axis is None else b.get_kinetic_angular_momentum(dict(axis)), L,
                        "angular-momentum", case, axis, rel=1e-7)
                if axis is None: mc.near(b.get("angular_momentum", []), L, "angular-momentum-name", case)
                for bz in (None, 0.0, 0.002, -0.003):
                    for fa in (None, {"x": 2.0, "y": -1.0}):
                        f = fa or {}
                        k = 0.004 if bz is None else bz
                        kw = {} if fa is None else {"field_axis_dict": dict(fa)}
                        if axis is not None: kw["rotation_axis_dict"] = dict(axis)
                        want = L + C * k * (raw(["x", "x"], f) + raw(["y", "y"], f)) / 2.0
                        mc.near(b.get_canonical_angular_momentum(bz, **kw), want, "canonical", case, bz, fa, axis, rel=1e-7)
        # everything else by name
        mc.near(b.get("mean", ["x", "px"]), mean["x"], "mean-name", case)
        mc.near(b.get("bunch_weight", []), tot, "weight-name", case)
        if not geometric:
            mc.near(b.get("standard_deviation", ["y", "x"]), table["y", "y"] ** 0.5, "sigma-name", case)
            mc.near(b.get("moment", ["x", "py"]), table["x", "py"], "moment-name", case)
        mc.need(sorted(Bunch.get_variables()) == sorted(NAMES), "names")
        if mode == 0 and geo == 0 and wt == 1:
            o = [self.bunch(sel[k:] + sel[:k - 1 if k else None], wt, pid)[0] for k in range(3)]
            rows = Bunch.list_get({k: x for k, x in enumerate(o)}, ["mean", "emittance", "bunch_weight"], [["x"], ["x"], []])
            near6 = lambda r: [round(v, 6) for v in r]
            want = sorted(([x.mean(["x"])["x"], x.get_emittance(["x"]), x.bunch_weight()] for x in o), key=near6)
            one = Bunch.list_get({k: x for k, x in enumerate(o)}, ["mean"], [["x"]])
            mc.need(len(one) == 1 and one[0] == sorted(x.mean(["x"])["x"] for x in o), "list-get-one", case, one)
            mc.need(len(rows) == 3 and rows[0] == sorted(rows[0]), "list-get", case, rows)
            for k, r in enumerate(sorted(zip(*rows), key=near6)):
                for p, q in zip(r, want[k]): mc.near(p, q, "list-get", case, rows, want)
        if wt == 0:
            # a beam symmetric about the axis: raw and central definitions agree
            s = Bunch()
            for d in w.hits:
                for sg in (1.0, -1.0):
                    s.append(Hit.new_from_dict(dict(d, x=sg * d["x"], y=sg * d["y"])))
            R = lambda f: sum(f(d) for d in w.hits) / len(w.hits)
            me = R(lambda d: d["energy"])
            want = (R(lambda d: (d["x"] ** 2 + d["y"] ** 2) * d["energy"]) - R(lambda d: d["x"] ** 2 + d["y"] ** 2) * me) * me / \
                R(lambda d: (d["energy"] - me) ** 2)
            mc.near(s.get_dispersion_rsquared(), want, "dispersion-rsquared", case, rel=1e-6)
        mc.seen(case)
        return out

if __name__ == "__main__":
    mc.main(C10)
