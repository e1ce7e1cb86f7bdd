import itertools, math
from fractions import Fraction as F
import mc
mc.block_root()
import numpy, scipy.spatial
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.bunch.weighting import BoundingEllipse, VoronoiWeighting, HullContent

BOX, FAR = 10 ** 6, 10 ** 4
P2 = [(0.25, 0.5), (1, 0), (0, 1), (2, 2.25), (-1, 1.5), (-1.75, -1), (0.5, -2), (2.5, -0.75), (0, 0), (7, 1)]
MANY2 = [(x + 0.03125 * ((3 * i + 1) % 7), y + 0.0625 * ((5 * i + 2) % 9)) for i, (x, y) in enumerate((a, b) for a in range(-3, 4) for b in range(-3, 4))]
MANY3 = [(x + 0.03125 * ((3 * i + 1) % 7), y + 0.0625 * ((5 * i + 2) % 9), z + 0.03125 * ((2 * i + 1) % 11)) for i, (x, y, z) in enumerate(itertools.product((-1, 0, 1), repeat=3))]
LATTICE = [(i, j) for i in range(4) for j in range(3)]
P3 = [(0, 0, 0), (2, 0, 0.25), (0, 2.25, 0), (0.5, 0, 2), (-2, 0.25, 0), (0, -2, 0.5), (0.25, 0, -2.5), (1, 1, 1.125), (-1, 0.5, 1), (5, 6, 7)]
ELLIPSES = [([[9.0, 0.0], [0.0, 9.0]], [0.0, 0.0]), ([[5.0, 2.0], [2.0, 4.0]], [0.0, 0.0]), ([[4.0, -1.0], [-1.0, 16.0]], [0.5, -0.25])]
VARS2 = [["x", "y"], ["y", "px"], ["t", "x"], ["pz", "energy"]]
VARS3 = [["x", "px", "y"], ["z", "t", "x"]]
TARGETS = {2: [([[1.0, 0.0], [0.0, 1.0]], None), ([[2.0, 0.5], [0.5, 1.0]], [0.5, -1.0])],
           3: [([[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 3.0]], None), ([[2.0, 0.5, 0.0], [0.5, 1.0, 0.25], [0.0, 0.25, 4.0]], [0.5, 0.0, -1.0])]}

SETS = [[0, 1, 2, 3, 8], [9, 4, 5, 6, 7, 1, 2], [3, 2, 1, 0], [6, 0, 9, 5, 8, 2], [5, 4, 7, 8]]

def clip(poly, a, b):
    """Part of a convex polygon with a.x <= b, exact"""
    val = [a[0] * p[0] + a[1] * p[1] - b for p in poly]
    out = []
    for i, p in enumerate(poly):
        q, v, w = poly[i - 1], val[i], val[i - 1]
        if (v < 0 and w > 0) or (v > 0 and w < 0):
            s = w / (w - v)
            out.append((q[0] + s * (p[0] - q[0]), q[1] + s * (p[1] - q[1])))
        if v <= 0: out.append(p)
    return out
def content2(points, i):
    """Exact area nearer to point i than to any other; 0 if it has no end; None if it is only just bounded."""
    pts = [(F(float(p[0])), F(float(p[1]))) for p in points]
    c = pts[i]
    poly = [(F(-BOX), F(-BOX)), (F(BOX), F(-BOX)), (F(BOX), F(BOX)), (F(-BOX), F(BOX))]
    for q in sorted(set(pts), key=lambda q: (q[0] - c[0]) ** 2 + (q[1] - c[1]) ** 2):
        if q != c:
            poly = clip(poly, (q[0] - c[0], q[1] - c[1]), (q[0] ** 2 + q[1] ** 2 - c[0] ** 2 - c[1] ** 2) / 2)
    if any(max(abs(x), abs(y)) == BOX for x, y in poly): return 0.0
    if any(max(abs(x), abs(y)) > FAR for x, y in poly): return None
    return float(abs(sum(poly[k - 1][0] * poly[k][1] - poly[k][0] * poly[k - 1][1] for k in range(len(poly)))) / 2)
def content3(points, i):
    """Volume nearer to point i than to any other, from its faces."""
    pts = [numpy.array(p, dtype=float) for p in points]
    c, total = pts[i], 0.0
    others = [q - c for k, q in enumerate(pts) if k != i]
    for q in others:
        n = q / numpy.linalg.norm(q)
        d = numpy.linalg.norm(q) / 2
        u = numpy.cross(n, [1.0, 0, 0] if abs(n[0]) < 0.8 else [0, 1.0, 0])
        u /= numpy.linalg.norm(u)
        v = numpy.cross(n, u)
        L = float(BOX)
        poly = [(-L, -L), (L, -L), (L, L), (-L, L)]
        for r in others:
            if r is q: continue
            poly = clip(poly, (float(r @ u), float(r @ v)), float(r @ r) / 2 - d * float(r @ n))
            if not poly: break
        if poly:
            far = max(max(abs(x), abs(y)) for x, y in poly)
            area = abs(sum(poly[k - 1][0] * poly[k][1] - poly[k][0] * poly[k - 1][1] for k in range(len(poly)))) / 2
            if far >= BOX / 2: return 0.0 if area > 1 else None
            if far > FAR: return None
            total += area * d / 3
    return total
def content(points, i): return (content2 if len(points[0]) == 2 else content3)(points, i)
def density(x, cov, mean):
    n = len(x)
    d = [a - (0.0 if mean is None else b) for a, b in zip(x, mean or [0.0] * n)]
    c = numpy.array(cov)
    arg = float(numpy.dot(d, numpy.linalg.solve(c, d)))
    return math.exp(-arg / 2) / math.sqrt((2 * math.pi) ** n * float(numpy.linalg.det(c)))
def inside(x, ell):
    """True, False or None (on the bound)"""
    d = [F(a) - F(b) for a, b in zip(x, ell[1])]
    m = [[F(v) for v in row] for row in ell[0]]
    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    a = (m[1][1] * d[0] ** 2 - (m[0][1] + m[1][0]) * d[0] * d[1] + m[0][0] * d[1] ** 2) / det
    return None if abs(a - 1) < F(1, 10 ** 9) else a < 1

class C36(mc.Check):
    pid = "C36"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of small point sets, bounds and target densities through the real tessellation and weighting, against cells cut out by half-planes in exact arithmetic"
    rule = ("all sets of 4-7 of 10 plane points and of 5-6 of 12 lattice points without a bound, all sets of up to 5 of them inside and outside 3 bounding ellipses with 3 numbers of boundary points, "
            "sets of 5-10 points in space, box lattices in 2-4 dimensions; local and global weights, 4 choices of variables, 2 target densities, 1-3 processes, region lists in any order; one weighting and one bound used for 3 (thorough 4) bunches in every order")
    assumptions = ["the points are distinct, two-dimensional or more, and not all on a line", "cells that reach further than 10^4 without being endless are left out"]
    def cases(self):
        for n in (4, 5, 6, 7) if self.thorough else (4, 5):
            for s in itertools.combinations(range(10), n): yield ["free", "P2", list(s)]
        for s in itertools.combinations(range(12), 5 if not self.thorough else 6):
            if self.thorough or sum(s) % 3 == 0: yield ["free", "LATTICE", list(s)]
        for e in range(3):
            for nb in (4, 8, 5) if self.thorough else (4, 5):
                for n in range(1, 6 if self.thorough else 4):
                    for s in itertools.combinations(range(10), n):
                        if self.thorough or n < 3 or (sum(s) + e) % 3 == 0: yield ["bound", e, nb, list(s)]
        for n in (5, 6, 7, 8, 10) if self.thorough else (7, 9, 10):
            for s in itertools.combinations(range(10), n): yield ["free", "P3", list(s)]
        for n in (20, 33, 49):
            for k in range(4): yield ["free", "MANY2", [(i * (5 + k) + k) % 49 for i in range(n)] if k != 2 else list(range(n))]
        for k in range(4): yield ["free", "MANY3", [(i * (2, 4, 5, 7)[k] + k) % 27 for i in range(27 - k)]]
        for dim in (2, 3, 4):
            for k in range(4): yield ["box", dim, k]
        for k in range(8): yield ["regions", k]
        for order in itertools.product(range(len(SETS)), repeat=4 if self.thorough else 3):
            for e in (None, 0, 1, 2):
                for n in range(4) if self.thorough else [sum(order) % 4]: yield ["again", n, e, list(order)]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def bunch(self, pts, vs, k):
        hits = []
        for i, p in enumerate(pts):
            h = Hit.new_from_dict({"mass": 100.0, "pid": -13, "x": 11.5, "y": -3.25, "px": 0.5, "pz": 77.0, "t": 4.0, "event_number": i + 1, "spill": k, "particle_number": 2})
            for v, x in zip(vs, p): h[v] = x
            h["local_weight"], h["global_weight"] = [1.0, 0.0, 2.5][(i + k) % 3], [1.0, 3.0, 0.5][(i + 2 * k) % 3]
            hits.append(h)
        return Bunch.new_from_hits(hits)
    def apply(self, case, pts, bound, ell, n, vw=None, k=None, which=0):
        """Weight the points and compare with the cells of all retained and boundary points."""
        dim = len(pts[0])
        vs = (VARS2 if dim == 2 else VARS3)[n % (len(VARS2) if dim == 2 else len(VARS3))]
        cov, mean = TARGETS[dim][n // 2 % 2]
        glob, procs = bool(n % 3 == 1), [1, 1, 2, 1, 3][n % 5]
        b = self.bunch(pts, vs, n % 7 if k is None else k)
        if k is not None: glob, procs = bool(which), 1
        seen = [[h[v] for v in vs] for h in b]
        before = [self.image(h) for h in b]
        if vw is None: vw = VoronoiWeighting(list(vs), numpy.array(cov), None if mean is None else numpy.array(mean), bound)
        vw.apply_weights(b, glob, procs)
        mc.S.add("transitions")
        kept = [True] * len(pts) if bound is None else [inside(p, ell) for p in pts]
        all_points = [p for p, k in zip(seen, kept) if k is not False]
        if bound is not None: all_points += [list(map(float, q)) for q in bound.bounding_points]
        obs, j = [], 0
        name = "global_weight" if glob else "local_weight"
        for i, h in enumerate(b):
            got = h[name]
            after = self.image(h)
            for key in after:
                if key != name and not (glob and key == "weight") and not (not glob and key == "weight"):
                    mc.need(after[key] == before[i][key], "weighting changes other data", case, vs, "%s of hit %d: %r -> %r" % (key, i, before[i][key], after[key]))
            if kept[i] is None: j += 1; continue
            if not kept[i]:
                mc.need(got == 0.0, "point outside the bound has a weight", case, vs, pts[i], got)
                obs.append("out")
                continue
            c = content(all_points, j)
            j += 1
            if c is None: continue
            mc.near(vw.tile_content_list[j - 1], c, "share of space", case, vs, pts[i], rel=1e-6, abs_=1e-6)
            mc.near(got, c * density(pts[i], cov, mean), "weight", case, vs, "point", pts[i], "share", c, rel=1e-6, abs_=1e-6 * density(pts[i], cov, mean))
            obs.append("in" if c else "endless")
        mc.need(len(vw.tile_content_list) == sum(1 for k in kept if k is not False) or None in kept, "number of shares", case, len(vw.tile_content_list))
        return obs
    def image(self, h): return {k: h[k] for k in Hit.get_variables() if self.readable(h, k)}
    def readable(self, h, k):
        try: h[k]
        except Exception: return False
        return True
    def free(self, case, palette, s):
        pts = [globals()[palette][i] for i in s]
        pts = [tuple(float(x) for x in p) for p in pts]
        dim = len(pts[0])
        rank = numpy.linalg.matrix_rank(numpy.array(pts[1:]) - numpy.array(pts[0]))
        if rank < dim: return None
        n = sum(s) + len(s)
        if palette == "P3" and len(s) % 2: pts = pts[::-1]
        return "%s:%s" % (dim, sorted(set(self.apply(case, pts, None, None, n))))
    def bound(self, case, e, nb, s):
        ell = ELLIPSES[e]
        be = BoundingEllipse(numpy.array(ell[0]), numpy.array(ell[1]), nb)
        pts = [tuple(float(x) for x in P2[i]) for i in s]
        obs = self.apply(case, pts, be, ell, sum(s) + e + nb)
        return "bound:%s" % sorted(set(obs))
    def again(self, case, n, e, order):
        """One weighting, and one bound shared with a second weighting, used for several bunches in turn."""
        ell = None if e is None else ELLIPSES[e]
        be = None if e is None else BoundingEllipse(numpy.array(ell[0]), numpy.array(ell[1]), 4 + n % 2)
        vs, (cov, mean) = VARS2[n % 4], TARGETS[2][n // 2 % 2]
        make = lambda: VoronoiWeighting(list(vs), numpy.array(cov), None if mean is None else numpy.array(mean), be)
        vws = [make(), make()]
        obs = []
        for step, i in enumerate(order):
            pts = [tuple(float(x) for x in P2[j]) for j in SETS[i]]
            obs += self.apply(case + ["step %d" % step], pts, be, ell, n, vws[step == 1], i, (step + n) % 2)
        return "again:%s" % sorted(set(obs))
    def box(self, case, dim, k):
        """Points on a grid of unequal spacing: the inner shares are boxes."""
        axes = [[-1.0, 0.0, 1.0 + 0.5 * k, 3.0 + k + d] if d == 0 or dim < 4 else [-1.0 - 0.25 * d, 0.0, 0.5 + 0.25 * k] for d in range(dim)]
        pts = numpy.array(list(itertools.product(*axes)))
        tess = scipy.spatial.Voronoi(pts)
        want = []
        for idx in itertools.product(*[range(len(a)) for a in axes]):
            inner = all(0 < i < len(a) - 1 for i, a in zip(idx, axes))
            want.append(math.prod((a[i + 1] - a[i - 1]) / 2 for i, a in zip(idx, axes)) if inner else 0.0)
        got = HullContent(tess, range(len(pts)), 1 + k % 2).tile_content_list
        mc.S.add("transitions", len(pts))
        for g, w, p in zip(got, want, pts): mc.near(g, w, "content of a box", case, list(p), rel=1e-5, abs_=1e-5)
        mc.need(len(got) == len(want), "number of contents", case, len(got))
        return "box%d" % dim
    def regions(self, case, k):
        """Any list of regions, any number of processes: contents in the order asked for."""
        pts = [(float(x), float(y)) for x, y in P2[:9]] + [(3.0, -3.5), (-4.0, 0.25), (1.0, 5.0)]
        tess = scipy.spatial.Voronoi(numpy.array(pts))
        want = [content2(pts, i) for i in range(len(pts))]
        lists = [list(range(12)), list(range(11, -1, -1)), [0, 2, 4, 8], [8, 0, 2], [], [1, 1, 5], [8], [3, 8, 1, 7, 0, 11, 2]]
        got = HullContent(tess, lists[k], 1 + k % 4)
        mc.S.add("transitions")
        for again in range(2):
            mc.need(len(got.tile_content_list) == len(lists[k]), "number of contents", case, got.tile_content_list)
            for i, g in zip(lists[k], got.tile_content_list):
                if want[i] is not None: mc.near(g, want[i], "content", case, i, rel=1e-6, abs_=1e-6)
            got.recalculate()
        return "regions%d" % bool(lists[k])

if __name__ == "__main__": mc.main(C36)
