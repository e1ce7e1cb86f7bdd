import itertools, math
import mc
mc.block_root()
import numpy
import xboa.common as common
from xboa.bunch.weighting import BoundingEllipse

P2 = [(0, 0), (1, 0), (0, 1), (1, 2), (2, 1), (3, 3), (-2, 1), (1, -1), (12, 0), (-5, 9)]
P3 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 2), (1, 1, 1), (-1, 2, 1), (10, 0, 3)]
WEIGHTS = [None, [1, 2, 0.5, 1, 3, 1, 1], [1, 0, 1, 1, 1, 0, 2], [0.25] * 7]
SCALES = [1.0, 1e-4, 1e3, 1e7]

def stats(pts, w, cut):
    """Weighted mean and covariance of the points in the cut, about the mean."""
    tot = math.fsum(wi for wi, c in zip(w, cut) if c)
    if tot == 0: return None, None
    n = len(pts[0])
    mean = [math.fsum(wi * p[j] for p, wi, c in zip(pts, w, cut) if c) / tot for j in range(n)]
    cov = [[math.fsum(wi * (p[j] - mean[j]) * (p[k] - mean[k]) for p, wi, c in zip(pts, w, cut) if c) / tot for k in range(n)] for j in range(n)]
    return numpy.array(mean), numpy.array(cov)

def fit(pts, w, eps_cut, iters):
    """The documented iteration. None where rounding may decide the answer."""
    cut, old, k = [True] * len(pts), None, 0
    scale = max(abs(x) for p in pts for x in p)
    while cut != old and k < iters:
        k, old = k + 1, cut
        mean, cov = stats(pts, w, cut)
        if mean is None: return None
        if k == iters: break
        det = numpy.linalg.det(cov)
        if det <= 1e-9 * scale ** (2 * len(mean)): return None
        inv = numpy.linalg.inv(cov)
        eps = [float((numpy.array(p) - mean) @ inv @ (numpy.array(p) - mean)) * det ** (1.0 / len(mean)) for p in pts]
        if any(abs(e - eps_cut) < 1e-7 * (e + eps_cut) for e in eps): return None
        cut = [e < eps_cut for e in eps]
    return mean, cov, k, sum(old)

class C30(mc.Check):
    pid = "C30"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of small point sets, weights, cuts and iteration limits through the real code, against the iteration written out"
    rule = ("all sets of 3-6 of 10 plane points and of 4-6 of 7 space points, with 4 weightings, 6 cuts, 4 iteration limits and 4 length scales; bounded selection of every sequence of up to 4 "
            "of 8 lattice points (on, inside and outside the bound) for 6 ellipses in 1-3 dimensions and 3 centres")
    assumptions = ["cases in which rounding decides whether a point is retained are left out"]
    def cases(self):
        for n in (3, 4, 5, 6):
            for s in itertools.combinations(range(len(P2)), n): yield ["fit", 2, list(s)]
        for n in (4, 5, 6):
            for s in itertools.combinations(range(len(P3)), n): yield ["fit", 3, list(s)]
        for e in range(6):
            for m in range(3):
                for n in range(0, 6 if self.thorough else 5):
                    if n == 0: yield ["bound", e, m, [], 0]
                    else:
                        for first in range(8): yield ["bound", e, m, [first], n - 1]
        for dim in (2, 3):
            for n in (20, 60, 200):
                for k in range(3): yield ["fit", dim, [(i * (k + 1) + i // 7 + i * i // 5) % (10 if dim == 2 else 7) for i in range(n)]]
        for e in range(6):
            for m in range(3): yield ["bound", e, m, [(3 * i + i // 8 + i * i // 5) % 8 for i in range(90)], 0]
        yield ["ctor"]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def fit(self, case, dim, idx):
        obs = []
        for scale in SCALES:
            pts = [tuple(scale * x for x in (P2 if dim == 2 else P3)[k]) for k in idx]
            for wi, wt in enumerate(WEIGHTS):
                w = [1.0] * len(pts) if wt is None else [float(x) for x in itertools.islice(itertools.cycle(wt), len(pts))]
                for ec in (0.5, 1.1, 2.3, 5.3, 40.0, 1e9):
                    for it in (1, 2, 3, 10):
                        want = fit(pts, w, ec * scale ** 2, it)
                        if want is None: continue
                        arg = [list(p) for p in pts] if wi % 2 else numpy.array(pts)
                        wa = None if wt is None else list(w)
                        keep = (numpy.array(arg), None if wa is None else list(wa))
                        mean, cov = common.fit_ellipse(arg, ec * scale ** 2, wa, it, False)
                        top = max(abs(x) for p in pts for x in p)
                        mc.need(numpy.shape(mean) == (dim,) and numpy.shape(cov) == (dim, dim), "shape", case)
                        mc.need(numpy.max(abs(mean - want[0])) <= 1e-12 * top * 10, "mean", case, scale, wt, ec, it, mean, want)
                        mc.need(numpy.max(abs(cov - want[1])) <= 1e-12 * top ** 2 * 10, "covariance", case, scale, wt, ec, it, cov, want)
                        mc.need(numpy.array_equal(numpy.array(arg), keep[0]) and wa == keep[1], "input-changed", case)
                        if it == 10 and want[2] < 10: mc.seen([idx, wt, ec, want[3]])
                        obs.append([want[2], want[3]])
                        mc.S.add("transitions", want[2])
        return [dim, len(idx), mc.h(obs)] if obs else None
    ELL = [[[1.0, 0.0], [0.0, 1.0]], [[4.0, 0.0], [0.0, 1.0]], [[2.0, 1.2], [1.2, 3.0]], [[4.0]], [[1.0, 0.0, 0.0], [0.0, 4.0, 0.0], [0.0, 0.0, 0.25]], [[2.0, -0.5, 0.1], [-0.5, 1.0, 0.3], [0.1, 0.3, 1.5]]]
    PTS = {1: [(0.0,), (2.0,), (-2.0,), (1.0,), (2.5,), (-3.0,), (0.5,), (100.0,)],
           2: [(0.0, 0.0), (1.0, 0.0), (0.0, -1.0), (2.0, 0.0), (1.5, 0.5), (-1.0, 1.0), (0.5, 0.25), (50.0, 50.0)],
           3: [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 2.0, 0.0), (0.0, 0.0, 0.5), (1.0, 1.0, 0.5), (-0.5, 0.5, 0.125), (0.0, 3.0, 0.0), (9.0, 9.0, 9.0)]}
    def inside(self, e, d):
        """True, False or None (rounding decides)."""
        ell = numpy.array(self.ELL[e])
        q = float(numpy.array(d) @ numpy.linalg.solve(ell, numpy.array(d)))
        diag = not numpy.any(ell - numpy.diag(numpy.diag(ell)))
        if abs(q - 1) < 1e-9 and not diag: return None
        return q <= 1
    def bound(self, case, e, m, head, n):
        ell = numpy.array(self.ELL[e])
        dim = len(ell)
        mean = numpy.array([[0.0, 0.0, 0.0], [4.0, -8.0, 2.0], [-0.5, 0.25, 16.0]][m][:dim])
        obs = []
        for per in (2, 3, 4):
            b = BoundingEllipse(ell, mean, per)
            mc.need(numpy.shape(b.bounding_points) == (per ** dim - per % 2, dim), "bounding-points", case, numpy.shape(b.bounding_points))
            for p in b.bounding_points:
                d = numpy.array(p) - mean
                mc.need(abs(d @ numpy.linalg.solve(ell, d) - 1) < 1e-9, "bounding-point-off", case, p)
        for tail in itertools.product(range(8), repeat=n):
            idx = head + list(tail)
            pts = numpy.array([numpy.array(self.PTS[dim][k]) + mean for k in idx]).reshape(len(idx), dim)
            keep = pts.copy()
            got, at = b.cut_on_bound(pts)
            flags = [self.inside(e, self.PTS[dim][k]) for k in idx]
            if None in flags: continue
            want = [k for k, f in enumerate(flags) if f]
            mc.need(list(at) == want, "indices", case, idx, list(at), want)
            mc.need(numpy.shape(got) == (len(want), dim) and numpy.array_equal(got, pts[want] if want else numpy.zeros((0, dim))), "points", case, idx, got)
            mc.need(numpy.array_equal(pts, keep), "input-changed", case)
            obs.append(want)
            mc.S.add("transitions")
        mc.seen(case)
        return [e, m, len(head) + n, mc.h(obs)] if obs else None
    def ctor(self, case):
        i2 = numpy.identity(2)
        n = 0
        for args in ((i2, numpy.zeros(2), 0), (i2, numpy.zeros(2), -1), (i2, numpy.zeros(2), 2.0), (i2, numpy.zeros(2), "3"), (i2, numpy.zeros(3), 2), (i2, numpy.zeros((1, 2)), 2), (numpy.zeros((2, 3)), numpy.zeros(2), 2)):
            try: BoundingEllipse(*args)
            except ValueError: n += 1; continue
            mc.need(False, "should-refuse", case, args)
        return n

if __name__ == "__main__": mc.main(C30)
