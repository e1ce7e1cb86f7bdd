import itertools, math
import mc
mc.block_root()
import numpy
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.bunch.weighting import MultipoleWeighting
from models import STORED as ALL
STORED = [v for v in ALL if not v.endswith("weight")]

AX1 = [-2.0, -1.0, 0.0, 1.0, 3.0, 0.5]
AX2 = [(-1.0, -1.0), (-1.0, 0.0), (-1.0, 1.0), (0.0, -1.0), (0.0, 0.5), (0.0, 2.0), (1.0, -1.0), (1.0, 0.0), (2.0, 1.5)]
W = [[1, 1, 1, 1, 1, 1, 1, 1, 1], [1, 2, 0.5, 1, 3, 1, 0.25, 1, 2], [1, 1, 0, 1, 2, 1, 1, 0, 1]]
NAMES = [("x", "px"), ("px", "x"), ("t", "energy"), ("y", "z")]

def powers(dim, order):
    """All exponents with total 1..order."""
    return [list(p) for p in itertools.product(range(order + 1), repeat=dim) if 1 <= sum(p) <= order]
def mom(pts, w, p):
    return math.fsum(wi * math.prod(x ** k for x, k in zip(pt, p)) for pt, wi in zip(pts, w)) / math.fsum(w)

class C31(mc.Check):
    pid = "C31"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of small weighted bunches and of target moments taken from other bunches, through the real weighting, against the moments recomputed from the hits"
    rule = ("bunches: all 4-6 of 6 points on one axis and all 7-8 of 9 points on two, 3 weightings, local and global; targets: the moments up to order 1-3 of every other bunch of the same kind "
            "(in every listing order for order 2 on one axis), ellipses about 3 means; axes in both orders; one weighting used for 3 bunches in every order, the target set anew or not; malformed requests")
    assumptions = ["equations with a condition number above 1e6 or factors that add up to zero, are left out", "for global weights each hit is a particle of its own"]
    def cases(self):
        for n in (4, 5, 6):
            for s in itertools.combinations(range(6), n):
                for w in range(3): yield ["one", list(s), w]
        for n in (7, 8):
            for s in itertools.combinations(range(9), n):
                for w in range(3): yield ["two", list(s), w]
        for s in itertools.combinations(range(9), 7): yield ["again", list(s)]
        for n in (12, 40, 120):
            for w in range(3):
                yield ["one", [(k + k // 4 + k * k // 7) % 6 for k in range(n)], w]
                yield ["two", [(k + k // 4 + k * k // 7) % 9 for k in range(n)], w]
        yield ["bad"]
        for s in itertools.combinations(range(6), 2): yield ["few", list(s)]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def bunch(self, names, pts, w, split):
        """The weights are shared between the local and the global weight in one of 3 ways."""
        Hit.clear_global_weights()
        hs = []
        for i, (p, wi) in enumerate(zip(pts, w)):
            d = {"event_number": i + 1, "pid": -13, "mass": 105.658, "status": i}
            h = Hit()
            for k, v in d.items(): h[k] = v
            for n, v in zip(names, p): h[n] = v
            h["local_weight"] = [wi, 1.0, 2.0][split]
            h["global_weight"] = [1.0, wi, wi / 2.0][split]
            hs.append(h)
        return Bunch.new_from_hits(hs)
    def check(self, case, names, pts, w, wanted, weighting, glob, split):
        """wanted: {exponents: raw moment}. Returns whether the request was judged."""
        order = [list(k) for k in sorted(wanted)]
        m = numpy.array([[mom(pts, w, [a + b for a, b in zip(i, j)]) - wanted[tuple(i)] * mom(pts, w, j) for j in order] for i in order])
        sv = numpy.linalg.svd(m, compute_uv=False)
        if sv[-1] * 1e6 < sv[0]: return False
        # the factors 1 + sum a_j g_j(x); nothing is left of the bunch if they add up to zero
        a = numpy.linalg.solve(m, [wanted[tuple(i)] - mom(pts, w, i) for i in order])
        for ww in (w, [1.0] * len(w)):
            parts = [1.0] + [aj * mom(pts, ww, j) for aj, j in zip(a, order)]
            if abs(sum(parts)) * 1e6 < sum(map(abs, parts)): return False
        b = self.bunch(names, pts, w, split)
        hs = list(b.hits())
        keep = [[h[v] for v in STORED] for h in hs]
        before = [(h["local_weight"], h["global_weight"]) for h in hs]
        out = weighting.apply_weights(b, glob)
        mc.need(out is b and len(b) == len(pts) and all(x is y for x, y in zip(b.hits(), hs)), "bunch", case)
        mc.need([[h[v] for v in STORED] for h in hs] == keep, "hits-changed", case)
        for h, o in zip(hs, before):
            other = (h["local_weight"], o[0]) if glob else (h["global_weight"], o[1])
            mc.need(other[0] == other[1], "other-weight", case, glob, other)
        new = [h["weight"] for h in hs]
        for o, x in zip(w, new): mc.need(o != 0 or x == 0, "zero-weight-hit", case, o, x)
        size = sum(abs(x) for x in new)
        if abs(sum(new)) * 1e6 < size: return False
        for p in order:
            got = mom(pts, new, p)
            scale = sum(abs(x) * abs(math.prod(c ** k for c, k in zip(pt, p))) for pt, x in zip(pts, new)) / abs(sum(new)) + 1
            mc.need(abs(got - wanted[tuple(p)]) <= 1e-7 * scale, "moment", case, names, p, got, "target", wanted[tuple(p)], "weights", new)
        if set(w) == {1} and split == 0 or set(before) == {(1.0, 1.0)}: mc.need(abs(sum(new) - len(pts)) < 1e-6 * size, "normalisation", case, sum(new))
        mc.seen([case, sorted(wanted.items())])
        mc.S.add("transitions")
        return True
    def one(self, case, s, wi):
        pts = [(AX1[k],) for k in s]
        w = [float(W[wi][k % 9]) for k in range(len(s))]
        if sum(1 for x in w if x) < 4: return None
        judged = 0
        for nt in (4, 5):
            for st in itertools.combinations(range(6), nt):
                tp, tw = [(AX1[k],) for k in st], [float(x) for x in W[(wi + nt) % 3][:nt]]
                for order in (1, 2, 3):
                    if sum(1 for x in w if x) < order + 1: continue
                    want = {tuple(p): mom(tp, tw, p) for p in powers(1, order)}
                    lists = list(itertools.permutations(sorted(want))) if order == 2 or self.thorough else [sorted(want), sorted(want, reverse=True)]
                    for l in lists[:1] + lists[-1:]:
                        for glob, split in ((False, 0), (True, 1), (False, 2), (True, 2)):
                            for pole in (order, order + 1):
                                mw = MultipoleWeighting(pole, ["x"], numpy.array([[1.0]]), numpy.array([0.0]))
                                a, b = [list(p) for p in l], [want[p] for p in l]
                                mw.set_target_moments(a, b)
                                judged += self.check(case, ("x",), pts, w, want, mw, glob, split)
                                mc.need(a == [list(p) for p in l] and b == [want[p] for p in l], "request-changed", case)
        for mean in (0.0, 0.7, -1.5):
            for var in (0.5, 2.0):
                want = {(1,): mean, (2,): var + mean * mean}
                if sum(1 for x in w if x) > 2: judged += self.check(case, ("px",), pts, w, want, MultipoleWeighting(2, ["px"], numpy.array([[var]]), numpy.array([mean])), False, 0)
        return [s, wi, judged] if judged else None
    def two(self, case, s, wi):
        pts = [AX2[k] for k in s]
        w = [float(W[wi][k % 9]) for k in range(len(s))]
        judged = 0
        targets = [st for st in itertools.combinations(range(9), 6)]
        for ti, st in enumerate(targets if self.thorough else targets[::6]):
            tp, tw = [AX2[k] for k in st], [float(x) for x in W[ti % 2][:6]]
            names = NAMES[ti % 4]
            for order in (1, 2):
                want = {tuple(p): mom(tp, tw, p) for p in powers(2, order)}
                for l in (sorted(want), sorted(want, key=lambda p: (sum(p), -p[0])), [(1, 1), (2, 0)][:order - 1] + [(0, 1)]):
                    sub = {p: want[p] for p in l}
                    for glob, split in ((False, 0), (True, 1), (bool(ti % 2), 2)):
                        mw = MultipoleWeighting(order if order == 2 else 1 + ti % 2, list(names), numpy.identity(2), numpy.zeros(2))
                        mw.set_target_moments([list(p) for p in l], [sub[p] for p in l])
                        judged += self.check(case, names, pts, w, sub, mw, glob, split)
        for mean in ((0.0, 0.0), (0.3, 0.1), (-0.2, 0.5)):
            for ell in ([[0.6, 0.1], [0.1, 0.8]], [[1.0, -0.3], [-0.3, 0.5]]):
                want = {(1, 0): mean[0], (0, 1): mean[1], (2, 0): ell[0][0] + mean[0] ** 2, (0, 2): ell[1][1] + mean[1] ** 2, (1, 1): ell[0][1] + mean[0] * mean[1]}
                for names in NAMES[:2]: judged += self.check(case, names, pts, w, want, MultipoleWeighting(2, list(names), numpy.array(ell), numpy.array(mean)), True, 0)
        return [s, wi, judged] if judged else None
    def again(self, case, s):
        """One weighting used for several bunches, with the target set once or between them."""
        judged = 0
        names = ("x", "px")
        lots = [([AX2[k] for k in s], [1.0] * 7)] + [([AX2[k] for k in range(9) if k != j], [float(W[j % 2][k]) for k in range(8)]) for j in (0, 4, 8)]
        targets = [{tuple(p): mom(tp, tw, p) for p in powers(2, 2)} for tp, tw in lots[1:]]
        for order in itertools.permutations(range(3)):
            for history in itertools.product((None, 0, 1), repeat=3):
                if history[0] is None: continue
                mw = MultipoleWeighting(2, list(names), numpy.identity(2), numpy.zeros(2))
                for which, t in zip(order, history):
                    if t is not None:
                        want = targets[t]
                        mw.set_target_moments([list(p) for p in sorted(want)], [want[p] for p in sorted(want)])
                    judged += self.check(case, names, lots[which][0], lots[which][1], want, mw, False, 0)
        return [s, judged] if judged else None
    def few(self, case, s):
        """Two hits can't have three moments: refused, or at least the phase space left alone; an error changes no weight."""
        pts = [(AX1[k],) for k in s]
        b = self.bunch(("x",), pts, [1.0, 2.0], 0)
        mw = MultipoleWeighting(3, ["x"], numpy.array([[1.0]]), numpy.array([0.0]))
        mw.set_target_moments([[1], [2], [3]], [0.5, 1.0, 2.0])
        try: mw.apply_weights(b, False)
        except Exception: mc.need([h["local_weight"] for h in b.hits()] == [1.0, 2.0], "weights-after-error", case); return "refused"
        mc.need([(h["x"],) for h in b.hits()] == pts, "hits-changed", case)
        return "not refused"
    def bad(self, case):
        one = lambda: MultipoleWeighting(2, ["x", "px"], numpy.identity(2), numpy.zeros(2))
        n = 0
        for idx, vals in (([[1, 0]], []), ([[1, 0]], [1.0, 2.0]), ([[1]], [1.0]), ([[1, 0, 0]], [1.0]), ([[1.0, 0]], [1.0]), ([[1, 0], [1, 0]], [1.0, 1.0]),
                          ([[1, 0], [0, 1], [1, 0]], [1.0, 0.0, 1.0]), ([[1, 1], [0, 1], [1, 0], [0, 1]], [1.0, 0.0, 1.0, 2.0]), ([[1, 0], ["a", 0]], [1.0, 1.0])):
            try: one().set_target_moments(idx, vals)
            except ValueError: n += 1; continue
            mc.need(False, "should-refuse", case, idx, vals)
        # moments beyond the order that was asked for
        for pole, idx in ((1, [[2, 0]]), (1, [[1, 0], [1, 1]]), (2, [[3, 0]]), (2, [[2, 1], [0, 1]]), (1, [[0, 3]])):
            mw = MultipoleWeighting(pole, ["x", "px"], numpy.identity(2), numpy.zeros(2))
            mw.set_target_moments(idx, [1.0] * len(idx))
            b = self.bunch(("x", "px"), AX2, [1.0] * 9, 0)
            try: mw.apply_weights(b, False)
            except Exception: n += 1; mc.need([h["local_weight"] for h in b.hits()] == [1.0] * 9, "weights-after-error", case, idx); continue
            mc.need(False, "should-refuse", case, pole, idx)
        return n

if __name__ == "__main__": mc.main(C31)
