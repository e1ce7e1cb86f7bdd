import itertools, math
import mc, models
mc.block_root()
from xboa.core import Hitcore, Bunchcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

VALS = [dict(x=0.0, px=0.0, y=0.0, py=0.0, pz=100.0, energy=200.0, t=0.0, station=1, pid=-13),
        dict(x=1.0, px=-2.0, y=3.0, py=0.5, pz=150.0, energy=230.0, t=-1.5, station=2, pid=13),
        dict(x=-4.0, px=7.0, y=1.0, py=-1.0, pz=210.0, energy=260.0, t=2.5, station=-3, pid=2212),
        dict(x=2.5, px=3.0, y=-6.0, py=2.0, pz=180.0, energy=215.0, t=0.25, station=2, pid=11),
        dict(x=1e3, px=-50.0, y=-2e3, py=40.0, pz=3e3, energy=3.5e3, t=1e2, station=7, pid=0),
        dict(x=1.0, px=-2.0, y=3.0, py=0.5, pz=-150.0, energy=-230.0, t=-1.5, station=0, pid=-11)]
LW = [1.0, 0.0, 0.5, 2.0, -0.25]
GW = [1.0, 3.0, 0.0]
AXES = ["x", "px", "y", "py", "pz", "energy", "t", "ct", "r_squared", "p", "x'", "station", "pid", "weight"]
LISTS = [[a] for a in AXES] + [[a, b] for a in AXES for b in AXES] + \
    [list(l) for l in itertools.product(["x", "px", "y", "r"], repeat=3)] + \
    [list(l) for l in itertools.product(["x", "py"], repeat=4)] + [["x"] * 5, ["y", "x", "px", "py", "t", "energy"]]
MEANS = [None, {}, "zero", {"x": 0.5, "px": -1.25}, {"x": 1, "r_squared": 2.5}, {"y": 0.5, "nothing": 3.0}]

class C09(mc.Check):
    pid = "C09"
    level = "model_checking"
    technique = "exhaustive enumeration of small weighted bunches against the defining sums"
    rule = ("all bunches of up to 2 hits (thorough: 3) over 6 phase-space points, 5 local and 3 global weights, and all "
            "of 3 and 4 hits over a smaller lattice; for each, every moment over axis lists up to order 6 including "
            "repeats, derived and integer axes, with and without supplied means, the covariance matrices and the moment "
            "tensors are compared with the defining sums")
    assumptions = ["floating-point agreement to 1e-9 of the sum of absolute contributions"]
    def cases(self):
        full = list(itertools.product(range(len(VALS)), range(len(LW)), range(len(GW))))
        yield ["bunch", []]
        for n in range(1, 3):
            if n > 1 and not self.thorough: full = [k for k in full if k[1] < 4 and (k[2] < 2 or k[1] == 0)]
            for c in itertools.product(full, repeat=n): yield ["bunch", [list(k) for k in c]]
        small = list(itertools.product((0, 1, 2, 4), (0, 1, 2), (0, 1))) if self.thorough else \
            [(0, 0, 0), (1, 0, 1), (2, 2, 0), (3, 3, 0), (4, 0, 0), (5, 1, 0), (1, 4, 0), (3, 0, 2), (2, 0, 1)]
        for c in itertools.product(small, repeat=3): yield ["bunch", [list(k) for k in c]]
        if not self.thorough: small = small[:5]
        else: small = small[:8]
        for c in itertools.product(small, repeat=4): yield ["bunch", [list(k) for k in c]]
        for n in (9, 17, 40, 150, 600):
            for a, c in ((1, 1), (2, 3), (5, 2)): yield ["bunch", [[(a * k + k * k // 3) % len(VALS), (c * k + k // 7) % len(LW), (k // 2) % 2] for k in range(n)]]
        for ax in range(1, 5):
            for mp in range(1, 6 if ax < 4 else 4):
                for seq in itertools.product(range(5), repeat=2): yield ["tensor", ax, mp, list(seq)]
    def sums(self, rows, wts, axes, means):
        tot = sum(wts)
        val = sc = 0.0
        for r, w in zip(rows, wts):
            a = b = w
            for v in axes:
                a *= r[v] - means[v]
                b *= abs(r[v]) + abs(means[v])
            val += a
            sc += abs(b)
        return val / tot, sc / abs(tot)
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        if case[0] == "tensor": return self.tensor(case)
        w = models.World()
        b = Bunch()
        for k, (v, l, g) in enumerate(case[1]):
            kw = dict(VALS[v], event_number=k + 1, local_weight=LW[l])
            hit = Hit.new_from_dict(dict(kw))
            b.append(hit)
            hit["global_weight"] = GW[g]
            d = w.new(**kw)
            w.set(d, "global_weight", GW[g])
        rows = []
        for d in w.hits:
            r = {}
            for v in AXES + ["r"]: r[v] = float(w.get(d, v))
            rows.append(r)
        wts = [r["weight"] for r in rows]
        tot = sum(wts)
        mc.near(b.bunch_weight(), tot, "bunch-weight", case)
        if abs(tot) < 1e-9:
            for f in (lambda: b.moment(["x"]), lambda: b.mean(["x"]), lambda: b.moment(["p", "p"], {"p": 0.0}),
                      lambda: b.standard_deviation("x"), lambda: b.covariance_matrix(["x", "px"])):
                try: f()
                except ZeroDivisionError: continue
                raise mc.Bad("zero-weight", "%s: a bunch of no weight has a moment" % (case,))
            return ("empty", len(wts))
        mean = {v: self.sums(rows, wts, [v], {v: 0.0})[0] for v in AXES + ["r"]}
        got = b.mean(AXES)
        mc.need(sorted(got) == sorted(AXES), "mean-keys", case, sorted(got))
        for v in AXES: mc.near(got[v], mean[v], "mean", case, v, abs_=1e-9 * self.sums(rows, wts, [v], {v: 0.0})[1])
        out = []
        heavy = len(case[1]) <= 1 or len(case[1]) == 3
        turn = None if heavy or self.thorough else sum(v + 2 * l + 3 * g for v, l, g in case[1]) % 4
        for n, axes in enumerate(LISTS):
            if turn is not None and n % 4 != turn: continue
            for k, m in enumerate(MEANS):
                if k > 2 and not ((heavy and len(case[1]) < 3) or (n + k) % 3 == 0): continue
                if m == "zero": given = {v: 0.0 for v in axes}
                else: given = m
                full = dict(mean)
                full.update(given or {})
                before = None if given is None else dict(given)
                r = b.moment(list(axes)) if given is None else b.moment(list(axes), given)
                want, sc = self.sums(rows, wts, axes, full)
                mc.near(r, want, "moment", case, axes, m, abs_=1e-9 * sc + 1e-12)
                mc.need(given == before, "means-argument", case, "the caller's means were changed", axes, given, before)
            out.append(round(want, 6))
            mc.S.add("transitions", len(MEANS))
        for a in AXES:
            var, sc = self.sums(rows, wts, [a, a], mean)
            if var > 1e-6 * sc:
                s = var ** 0.5
                mc.near(b.standard_deviation(a), s, "sigma", case, a, rel=1e-5)
                mc.near(b.standard_deviation([a, "t"]), s, "sigma-list", case, a, rel=1e-5)
                v2 = self.sums(rows, wts, [a, a], {a: 0.5})[0]
                if v2 > 1e-6 * sc:
                    mc.near(b.standard_deviation(a, 0.5), v2 ** 0.5, "sigma-about", case, a, rel=1e-5)
                    mc.near(b.standard_deviation([a], {a: 0.5}), v2 ** 0.5, "sigma-about", case, a, rel=1e-5)
        for axes in (["x"], ["x", "px"], ["px", "x"], ["y", "t", "x"], ["x", "p", "y", "energy"], ["station", "x'"], ["x", "x"], AXES):
            for origin in (None, {}, {"x": 0.5, "p": 1.0}, {v: 0.0 for v in axes}):
                full = dict(mean)
                full.update(origin or {})
                before = None if origin is None else dict(origin)
                cov = b.covariance_matrix(axes) if origin is None else b.covariance_matrix(axes, origin)
                mc.need(origin == before, "origin-argument", case)
                mc.need(cov.shape == (len(axes), len(axes)), "cov-shape", case)
                for i, u in enumerate(axes):
                    for j, v in enumerate(axes):
                        want, sc = self.sums(rows, wts, [u, v], full)
                        mc.near(float(cov[i, j]), want, "covariance", case, axes, u, v, origin, abs_=1e-9 * sc + 1e-12)
                        mc.need(cov[i, j] == cov[j, i], "symmetric", case, axes)
        # zero weight hits have no influence
        if 0.0 in wts and len(case[1]) <= 3:
            c = Bunch()
            for hit, wt in zip(b.hits(), wts):
                if wt != 0.0: c.append(hit)
            for axes in (["x"], ["x", "px"], ["r_squared", "energy"], ["ct", "y", "px"]):
                mc.near(c.moment(axes), b.moment(axes), "zero-weight-influence", case, axes, abs_=1e-9 * self.sums(rows, wts, axes, mean)[1] + 1e-12)
        # nothing was changed by asking
        for hit, r in zip(b.hits(), rows):
            for v in ("x", "px", "energy", "weight", "pid"): mc.need(float(hit[v]) == r[v], "data-changed", case, v)
        mc.seen((case[1]))
        return out[::7]
    def tensor(self, case):
        ax, mp, seq = case[1:]
        names = ["x", "px", "energy", "t"][:ax]
        bc = Bunchcore()
        table = bc.index_by_power(mp, ax)
        got = sorted(tuple(t) for t in table)
        want = sorted(t for t in itertools.product(range(mp + 1), repeat=ax) if sum(t) <= mp)
        mc.need(got == want, "index-table", case, "got", got, "want", want)
        hits, rows, wts = [], [], []
        for k, s in enumerate(seq):
            h = Hitcore()
            for v in names: h.set(v, VALS[s + 1 if s else 1][v] * (0.5 if abs(VALS[s][v]) < 1e3 else 1e-3) + k)
            h.set("event_number", k + 1)
            h.set("local_weight", LW[(s + k) % 4])
            h.set("global_weight", [1.0, 2.0][s % 2])
            hits.append(h)
            bc.set_item(h, k)
            rows.append({v: h.get(v) for v in names})
            wts.append(LW[(s + k) % 4] * [1.0, 2.0][s % 2])
        if abs(sum(wts)) < 1e-15:
            try: bc.moment_tensor(names, mp)
            except RuntimeError: return ("no-weight",)
            raise mc.Bad("tensor-zero-weight", str(case))
        t = bc.moment_tensor(names, mp)
        mc.need(len(t) == len(table), "tensor-length", case)
        for p, v in zip(table, t):
            axes = [n for n, k in zip(names, p) for j in range(k)]
            want, sc = self.sums(rows, wts, axes, {n: 0.0 for n in names})
            mc.near(v, want, "tensor", case, list(p), abs_=1e-10 * sc)
            if axes:
                mc.near(bc.moment(axes, {n: 0.0 for n in names}), want, "core-moment", case, axes, abs_=1e-10 * sc)
        m = {n: 0.25 * (k + 1) for k, n in enumerate(names)}
        cov = bc.covariance_matrix(names, m)
        for i, u in enumerate(names):
            for j, v in enumerate(names):
                want, sc = self.sums(rows, wts, [u, v], m)
                mc.near(cov[i][j], want, "core-covariance", case, u, v, abs_=1e-10 * sc)
        return [round(v, 5) for v in t]

if __name__ == "__main__":
    mc.main(C09)
