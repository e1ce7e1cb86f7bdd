import itertools, math
import numpy
import mc, models
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

P = [-200.0, -1.0, 0.0, 0.5, 150.0]
E = [0.0, 50.0, 226.0, 1000.0, -300.0]
M = [0.0, 105.6583668, 938.271996]
SHELL = ["", "p", "px", "py", "pz", "energy"]
ROTS = [["x"], ["x", "px"], ["px", "x"], ["x", "px", "z"], ["y", "py", "t", "energy"], ["ct", "energy"], ["x", "x'"], ["pz"], ["x", "kinetic_energy"]]
TRANS = [{}, {"x": 10.0}, {"px": -3.0, "z": 1000.0}, {"pz": 25.0, "energy": -4.0, "t": 1.0}, {"ct": 300.0}, {"kinetic_energy": 2.0}, {"mass": 5.0, "charge": -1.0},
         {"station": 2, "x": 1.0}, {"event_number": -1}, {"local_weight": -0.5, "bz": 0.25}]
WATCH = models.DOUBLES + models.INTS

def mats(n):
    """A fixed family of n by n matrices: identity, scaling, drift, rotation, singular, dense."""
    out = [numpy.eye(n), 2.0 * numpy.eye(n), numpy.zeros((n, n))]
    d = numpy.eye(n)
    if n > 1: d[0, 1] = 0.1
    out.append(d)
    r = numpy.eye(n)
    if n > 1:
        c, s = math.cos(0.3), math.sin(0.3)
        r[:2, :2] = [[c, s], [-s, c]]
    out.append(r)
    out.append(numpy.array([[(0.5 * i - 0.25 * j + 0.125 * (i * j + 1)) for j in range(n)] for i in range(n)]))
    return out

class C13(mc.Check):
    pid = "C13"
    level = "model_checking"
    technique = "exhaustive enumeration of hits, transformations and mass-shell settings against a reference model"
    rule = ("mass-shell adjustment of all hits over a momentum, energy and mass lattice by every variable; translations and "
            "linear transformations of hits and of bunches for 9 variable lists, 6 matrices, 3 origins, 4 offsets and every "
            "mass-shell variable; chains of two transformations; changes of frame to target covariances; period "
            "transformations over offsets, frequencies and variables")
    assumptions = ["the sign a mass-shell adjustment chooses for a momentum component is not specified",
                   "an origin that is not given is zero (the docstring of Bunch.abelian_transformation says bunch mean)"]
    def cases(self):
        for c in itertools.product(range(5), range(5), range(5), range(5), range(3)): yield ["shell", list(c)]
        base = [(2, 2, 4, 2, 1), (0, 1, 4, 3, 2), (3, 0, 1, 3, 1), (4, 4, 0, 3, 0), (2, 2, 2, 1, 1), (1, 3, 4, 0, 2)]
        more = base
        if self.thorough: more = base + [c for n, c in enumerate(itertools.product(range(5), range(5), range(5), range(5), range(3))) if n % 37 == 5]
        for c in more:
            for s in range(len(SHELL)):
                for t in range(len(TRANS)):
                    yield ["translate", list(c), t, s]
                for r in range(len(ROTS)):
                    for m in range(6):
                        for o in range(3): yield ["rotate", list(c), r, m, o, s]
        for n in (1, 2, 3):
            for c in itertools.combinations(base, n):
                for t in range(len(TRANS)):
                    for s in range(len(SHELL)): yield ["btranslate", [list(k) for k in c], t, s]
                for r in range(len(ROTS)):
                    for m in (1, 3, 4, 5):
                        yield ["brotate", [list(k) for k in c], r, m, (r + m) % 3, (r + m + n) % len(SHELL)]
        for a, b in itertools.product(range(len(ROTS)), repeat=2):
            for m in (1, 3, 4, 5):
                for k in range(2): yield ["chain", list(base[k]), a, b, m]
        for k in range(6):
            for t in range(5):
                for v in range(5):
                    for o in range(3):
                        for s in (0, 5, 4): yield ["frame", k, t, v, o, s]
        for var in ("t", "ct", "x", "z", "energy"):
            for off in (0.0, 1.0, -2.5, 1e3):
                for f in (0.2, 0.004, 1.0, 5.0): yield ["period", var, off, f]
    def hit(self, c, k=0):
        kw = dict(x=1.5 - k, y=-2.0, z=100.0 + k, t=-0.75, px=P[c[0]], py=P[c[1]], pz=P[c[2]], energy=E[c[3]], mass=M[c[4]],
                  bz=0.004, charge=1.0, station=4, event_number=k + 1, pid=-13, local_weight=[2.0, 0.0, 1.5, -0.5][k % 4] if k else 2.0)
        h = Hit.new_from_dict(dict(kw))
        h["global_weight"] = 0.5
        w = models.World()
        return h, w.new(**kw), kw
    def same(self, h, d, case, what, skip=(), tol=1e-9):
        for v in WATCH:
            if v in skip: continue
            if isinstance(d[v], int): mc.need(h[v] == d[v], "changed", case, what, v, h[v], d[v])
            else: mc.near(h[v], d[v], "changed", case, what, v, rel=tol, abs_=1e-9)
        mc.near(h["global_weight"], 0.5, "global-weight", case, what)
    def set(self, d, v, val):
        if v == "ct": d["t"] = val / models.C_LIGHT
        elif v == "kinetic_energy": d["energy"] = val + d["mass"]
        elif v == "x'": d["px"] = val * d["pz"]
        elif v in d: d[v] = val
        else: raise KeyError(v)
    def get(self, d, v): return models.World().get(d, v)
    def on_shell(self, h, d, var, ret, case, what):
        """Compare h with model d, on which the adjustment of var has not been done yet; bring d up to date."""
        if var == "":
            self.same(h, d, case, what)
            return "none"
        e, m = d["energy"], d["mass"]
        p2 = d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2
        scale = e * e + m * m + p2 + 1.0
        if var == "energy":
            d["energy"] = math.sqrt(p2 + m * m)
            self.same(h, d, case, what)
            mc.need(ret in (True, None), "report", case, what)
            return "energy"
        if var == "p":
            val = e * e - m * m
            comps = ["px", "py", "pz"]
        else:
            comps = [var]
            val = e * e - m * m - p2 + d[var] ** 2
        self.same(h, d, case, what, skip=comps)
        if abs(val) < 2e-6 + 1e-12 * scale:
            for v in comps: d[v] = h[v]
            return "edge"
        if val < 0:
            for v in comps:
                mc.need(h[v] == 0.0, "unphysical-not-zero", case, what, v, h[v])
                d[v] = 0.0
            mc.need(ret in (False, None), "unphysical-not-reported", case, what, ret)
            return "unphysical"
        if var == "p" and p2 == 0.0:
            # there is no direction to keep
            for v in comps: d[v] = h[v]
            return "no-direction"
        q2 = h["px"] ** 2 + h["py"] ** 2 + h["pz"] ** 2
        mc.near(q2 + m * m, e * e, "mass-shell", case, what, rel=1e-9, abs_=1e-6)
        if var == "p":
            k = math.sqrt(val / p2)
            for v in comps: mc.near(h[v], d[v] * k, "direction", case, what, v, rel=1e-9)
        mc.need(ret in (True, None), "report", case, what, ret)
        for v in comps: d[v] = h[v]
        return "ok"
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        mc.seen(case)
        k = case[0]
        if k == "shell":
            out = []
            for var in SHELL[1:]:
                h, d, kw = self.hit(case[1])
                if var == "p" and d["px"] == d["py"] == d["pz"] == 0.0 and d["energy"] ** 2 > d["mass"] ** 2: continue
                ret = h.mass_shell_condition(var)
                mc.need(ret in (True, False), "report", case, ret)
                out.append(self.on_shell(h, d, var, ret, case, var))
                # asking again changes nothing
                if out[-1] != "edge":
                    again = h.mass_shell_condition(var)
                    self.same(h, d, case, ("again", var), tol=1e-7)
                    if out[-1] == "unphysical": mc.need(again is False, "unphysical-not-reported", case, var)
            h, d, kw = self.hit(case[1])
            h.mass_shell_condition("")
            self.same(h, d, case, "none")
            try: h.mass_shell_condition("x")
            except IndexError: pass
            else: raise mc.Bad("unknown-shell", str(case))
            return [case[1], out]
        if k == "translate":
            h, d, kw = self.hit(case[1])
            arg = dict(TRANS[case[2]])
            for v, x in arg.items(): self.set(d, v, x + self.get(d, v))
            if SHELL[case[3]] == "p" and d["px"] == d["py"] == d["pz"] == 0.0: return None
            h.translate(arg, SHELL[case[3]])
            mc.need(arg == TRANS[case[2]], "argument", case)
            if "event_number" in arg: h["global_weight"] = 0.5
            return [case, self.on_shell(h, d, SHELL[case[3]], None, case, "translate")]
        if k == "rotate":
            h, d, kw = self.hit(case[1])
            return self.rotate(h, d, case, *case[2:])
        if k == "btranslate":
            b, ds = Bunch(), []
            for n, c in enumerate(case[1]):
                h, d, kw = self.hit(c, n)
                for v, x in TRANS[case[2]].items(): self.set(d, v, x + self.get(d, v))
                if SHELL[case[3]] == "p" and d["px"] == d["py"] == d["pz"] == 0.0: return None
                b.append(h)
                ds.append(d)
            arg = dict(TRANS[case[2]])
            if "event_number" in arg:
                for h in b.hits(): h["global_weight"] = 0.5
            if SHELL[case[3]]: b.translate(arg, SHELL[case[3]])
            else: b.translate(arg)
            mc.need(arg == TRANS[case[2]] and len(b) == len(ds), "argument", case)
            for h in b.hits(): h["global_weight"] = 0.5
            out = [self.on_shell(h, d, SHELL[case[3]], None, case, "btranslate") for h, d in zip(b.hits(), ds)]
            self.stats(b, ds, case)
            return [case, out]
        if k == "brotate":
            rot, m, o, s = case[2:]
            names = ROTS[rot]
            if self.undefined(names, [self.hit(c, n)[1] for n, c in enumerate(case[1])]): return None
            R = mats(len(names))[m]
            origin, trans = self.origins(names, o)
            b, ds = Bunch(), []
            for n, c in enumerate(case[1]):
                h, d, kw = self.hit(c, n)
                self.apply(d, names, R, origin, trans)
                b.append(h)
                ds.append(d)
            if SHELL[s] == "p" and any(d["px"] == d["py"] == d["pz"] == 0.0 for d in ds): return None
            a1, a2, M1, l1 = dict(trans), dict(origin), numpy.matrix(R), list(names)
            b.abelian_transformation(l1, M1, a1, a2, SHELL[s])
            mc.need(a1 == trans and a2 == origin and l1 == names and numpy.array_equal(M1, R), "argument", case)
            out = [self.on_shell(h, d, SHELL[s], None, case, "brotate") for h, d in zip(b.hits(), ds)]
            self.stats(b, ds, case)
            return [case, out]
        if k == "chain":
            h, d, kw = self.hit(case[1])
            if self.undefined(ROTS[case[2]] + ROTS[case[3]], [d]): return None
            self.rotate(h, d, case, case[2], case[4], 1, 0)
            if self.undefined(ROTS[case[3]], [d]): return None
            self.rotate(h, d, case, case[3], 5, 2, 0)
            return [case, round(d["x"], 4)]
        if k == "frame": return self.frame(case)
        return self.period(case)
    def undefined(self, names, ds):
        """Divergences do not exist for particles with no forward momentum, and cannot be set then."""
        return "x'" in names and any(d["pz"] == 0.0 for d in ds)
    def stats(self, b, ds, case):
        """The statistics see the transformed hits."""
        for v in ("x", "px", "energy"):
            s = sum(d[v] * d["local_weight"] for d in ds)
            t = sum(d["local_weight"] for d in ds)
            if t > 1e-6: mc.near(b.mean([v])[v], s / t, "mean-after", case, v, rel=1e-7, abs_=1e-6)
    def origins(self, names, o):
        origin = [{}, {v: 0.5 * (i + 1) for i, v in enumerate(names)}, {names[-1]: -2.0, "y": 77.0}][o]
        trans = [{}, {names[0]: 10.0}, {v: -1.0 * (i + 1) for i, v in enumerate(names)}][o]
        return origin, trans
    def apply(self, d, names, R, origin, trans):
        v = [self.get(d, n) - origin.get(n, 0.0) for n in names]
        out = [sum(R[i, j] * v[j] for j in range(len(v))) + trans.get(n, 0.0) + origin.get(n, 0.0) for i, n in enumerate(names)]
        for n, x in zip(names, out): self.set(d, n, x)
    def rotate(self, h, d, case, rot, m, o, s):
        names = ROTS[rot]
        if self.undefined(names, [d]): return None
        R = mats(len(names))[m]
        origin, trans = self.origins(names, o)
        self.apply(d, names, R, origin, trans)
        if SHELL[s] == "p" and d["px"] == d["py"] == d["pz"] == 0.0: return None
        M1 = [numpy.matrix(R), numpy.matrix(R).copy(), numpy.array(R)][(rot + m + o) % 3]
        a1, a2, l1 = dict(trans), dict(origin), list(names)
        h.abelian_transformation(l1, M1, a1, a2, SHELL[s])
        mc.need(a1 == trans and a2 == origin and l1 == names and numpy.array_equal(M1, R), "argument", case)
        return [case, self.on_shell(h, d, SHELL[s], None, case, "rotate")]
    def frame(self, case):
        k, t, v, o, s = case[1:]
        names = [["x"], ["x", "px"], ["px", "y"], ["x", "px", "y", "py"], ["t", "energy"]][v]
        n = len(names)
        b, ds = Bunch(), []
        for i in range(7):
            c = [(i + k) % 5, (2 * i + k) % 5, 4, 3, 1]
            h, d, kw = self.hit(c, i)
            for j, nm in enumerate(("x", "px", "y", "py", "t", "energy")):
                d[nm] = [1.0, 5.0, 2.0, 3.0, 0.5, 400.0][j] * (1.0 + 0.25 * ((i * (j + 2) + k + i * i) % 7)) - 2.0 * j
                h[nm] = d[nm]
            h["local_weight"] = d["local_weight"] = [1.0, 0.25, 2.0, 0.0, 1.5, 3.0, 0.5][(i * (k + 1)) % 7]
            b.append(h)
            ds.append(d)
        target = [numpy.eye(n), numpy.diag([4.0 + i for i in range(n)]), numpy.eye(n) * 9.0 + 1.0,
                  numpy.array([[(1.0 if i == j else 0.3 ** abs(i - j)) * (i + 1) * (j + 1) for j in range(n)] for i in range(n)]),
                  numpy.array([[(2.0 if i == j else -0.4 / (1 + abs(i - j))) for j in range(n)] for i in range(n)])][t]
        origin = [{}, {v_: 1.0 for v_ in names}, {names[0]: -3.0, "z": 5.0}][o]
        trans = [{}, {names[-1]: 2.5}, {}][o]
        def cov(ds, about):
            X = numpy.array([[self.get(d, v_) - about[v_] for v_ in names] for d in ds])
            return (X.T * W).dot(X) / W.sum()
        W = numpy.array([d["local_weight"] for d in ds])
        mean = {v_: sum(self.get(d, v_) * d["local_weight"] for d in ds) / W.sum() for v_ in names}
        about = dict(mean)
        about.update({v_: x for v_, x in origin.items() if v_ in names})
        V0 = cov(ds, about)
        if numpy.linalg.det(V0) < 1e-9 * numpy.prod(numpy.diag(V0)): return None
        before = [dict(d) for d in ds]
        T1, a1, a2, l1 = numpy.matrix(target), dict(trans), dict(origin), list(names)
        b.transform_to(l1, T1, a1, a2, SHELL[s])
        mc.need(a1 == trans and a2 == origin and l1 == names and numpy.array_equal(T1, target), "argument", case)
        # covariances about the image of the point they were taken about
        got = [{v_: h[v_] for v_ in names} for h in b.hits()]
        gm = {v_: sum(g[v_] * w for g, w in zip(got, W)) / W.sum() for v_ in names}
        X = numpy.array([[g[v_] - gm[v_] for v_ in names] for g in got])
        X0 = numpy.array([[self.get(d, v_) - mean[v_] for v_ in names] for d in ds])
        if numpy.linalg.matrix_rank(X0, tol=1e-6 * numpy.abs(X0).max()) < n: return None
        M = numpy.linalg.lstsq(X0, X, rcond=None)[0].T
        touched = set(["energy"] if SHELL[s] == "energy" else ["pz"] if SHELL[s] == "pz" else [])
        if not touched & set(names):
            mc.need(numpy.allclose(X0.dot(M.T), X, rtol=1e-6, atol=1e-6), "linear", case)
            mc.near(abs(numpy.linalg.det(M)), 1.0, "emittance-conserved", case, rel=1e-6)
            V1 = M.dot(V0).dot(M.T)
            ratio = (numpy.linalg.det(V0) / numpy.linalg.det(target)) ** (1.0 / n)
            mc.need(numpy.allclose(V1, target * ratio, rtol=1e-5, atol=1e-6 * ratio), "target-covariance", case, V1.tolist(), (target * ratio).tolist())
            # where the origin goes: to itself plus the translation
            o_ = numpy.array([origin.get(v_, 0.0) for v_ in names])
            m0 = numpy.array([mean[v_] for v_ in names])
            want = M.dot(m0 - o_) + o_ + numpy.array([trans.get(v_, 0.0) for v_ in names])
            for i, v_ in enumerate(names): mc.near(gm[v_], want[i], "centre", case, v_, rel=1e-5, abs_=1e-5)
        for h, d in zip(b.hits(), before):
            for v_ in WATCH:
                if v_ in names or v_ in touched: continue
                mc.near(h[v_], d[v_], "changed", case, v_)
            if SHELL[s]:
                e2, p2 = h["energy"] ** 2, h["px"] ** 2 + h["py"] ** 2 + h["pz"] ** 2 + h["mass"] ** 2
                if SHELL[s] == "energy" or h["pz"] != 0.0: mc.near(e2, p2, "mass-shell", case, rel=1e-9, abs_=1e-4)
        return [case, [round(gm[v_], 4) for v_ in names]]
    def period(self, case):
        var, off, f = case[1:]
        b, vals, lws = Bunch(), [], []
        for k, t in enumerate((0.0, 1.0 / f, 2.25 / f, -0.4 / f, -3.75 / f, 7.5 / f, 0.49 / f, 1e3 / f, off, off + 4.0 / f, off - 0.3 / f)):
            h, d, kw = self.hit((2, 2, 4, 3, 1), k)
            h[var] = t
            b.append(h)
            vals.append(h[var])
            lws.append(kw["local_weight"])
        if var == "t": b.period_transformation(off, f)
        else: b.period_transformation(off, f, var)
        out = []
        for h, v, lw in zip(b.hits(), vals, lws):
            r = h[var]
            tol = 1e-6 * (abs(v) + abs(off) + 1.0 / f)
            mc.need(-0.5 / f - tol <= r <= 0.5 / f + tol, "range", case, v, r)
            n = (v - off - r) * f
            mc.need(abs(n - round(n)) <= tol * f + 1e-9, "whole-periods", case, v, r, n)
            mc.need(h["pz"] == 150.0 and h["y"] == -2.0 and h["mass"] == M[1] and h["local_weight"] == lw, "changed", case)
            out.append(round(r, 5))
        return out

if __name__ == "__main__":
    mc.main(C13)
