import itertools, math
import mc, models, iofmt
mc.block_root()
import numpy
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch
import xboa.common as common

VAL = [-1.0, 0.0, 0.5, 1.0, 2.0]
WT = [1.0, 0.0, 0.25, -2.0]
EDGES = [[0.0, 1.0], [-1.0, 0.0, 0.5, 1.0], [0.0, 0.25, 0.5, 2.0], [-2.0, 3.0], [0.5, 0.75], [1.0, 2.0, 4.0], [-1.0, 2.0], [0.0, 0.5, 1.0, 1.5, 2.0]]

def content(xs, edges, ws, ys=None, yedges=None):
    """Each entry in the one half-open bin that holds it."""
    ys, yedges = (ys, yedges) if ys is not None else ([0.0] * len(xs), [-1.0, 1.0])
    out = {}
    for x, y, w in zip(xs, ys, ws):
        for i in range(len(edges) - 1):
            for j in range(len(yedges) - 1):
                if edges[i] <= x < edges[i + 1] and yedges[j] <= y < yedges[j + 1]: out[i, j] = out.get((i, j), 0.0) + w
    return out

class C20(mc.Check):
    pid = "C20"
    level = "model_checking"
    technique = "exhaustive enumeration of values, weights, edges and limits through the real binning code"
    rule = ("all value lists up to length 5 (thorough 6) over a 5-value lattice that hits bin edges, 8 edge lists, weights from 4 values and none, one and two "
            "dimensions; bunch histograms in 3 units with every combination of given and automatic limits and bin counts; all weight/value list pairs up to length 4 of equal and different lengths for min_max; sample sizes 0..20000 for n_bins")
    assumptions = ["explicit limits are given in increasing order with the data's own limits"]
    def cases(self):
        top = 6 if self.thorough else 5
        for n in range(0, top + 1):
            for xs in itertools.combinations_with_replacement(range(5), n) if n > 4 else itertools.product(range(5), repeat=n):
                yield ["h1", list(xs)]
        for n in range(0, 4 if self.thorough else 3):
            for xs in itertools.product(range(5), repeat=n):
                for ys in itertools.product(range(5), repeat=n): yield ["h2", list(xs), list(ys)]
        for n in range(1, 5):
            for xs in itertools.combinations_with_replacement(range(5), n): yield ["bunch", list(xs)]
        for n in range(0, 5):
            for xs in itertools.product(range(5), repeat=n):
                for m in range(0, 4 if n < 4 else 1): yield ["minmax", list(xs), m]
        for n in range(0, 20001 if self.thorough else 3001, 50): yield ["nbins", n]
        for n in (15, 25, 150, 400): yield ["big", n]
        for n in (12, 70, 300, 1100):
            for m in (9, 33, 130): yield ["long", n, m]
    def run_case(self, case):
        mc.seen(case)
        return getattr(self, case[0])(case)
    def same(self, case, contents, want, shape, what):
        mc.need(tuple(numpy.shape(contents)) == shape, "shape", case, what, numpy.shape(contents), shape)
        for i in range(shape[0]):
            for j in range(shape[1]): mc.near(contents[i][j], want.get((i, j), 0.0), "contents", case, what, [i, j], abs_=1e-12)
    def h1(self, case):
        xs = [VAL[i] for i in case[1]]
        for e, edges in enumerate(EDGES):
            for ws in [None] + ([list(w) for w in itertools.product(WT, repeat=len(xs))] if len(xs) < 3 else [[WT[(i + k) % 4] for i in range(len(xs))] for k in range(4)]):
                x0, e0, w0 = list(xs), list(edges), list(ws) if ws is not None else None
                c, xb, yb = common.histogram(xs, edges, weights=ws)
                self.same(case, c, content(xs, edges, ws or [1.0] * len(xs)), (len(edges) - 1, 1), [edges, ws])
                mc.need(list(xb) == edges and len(yb) == 0, "edges", case)
                mc.need(xs == x0 and edges == e0 and ws == w0, "arguments-changed", case)
                mc.S.add("transitions")
        return case
    def long(self, case):
        n, m = case[1:]
        edges = [[0.25 * k for k in range(m + 1)], [0.25 * k * k / 8 - 3.0 for k in range(m + 1)], [-5.0 + 0.5 * k + 0.25 * (k % 3) for k in range(m + 1)]]
        xs = [0.25 * ((k * 7 + k * k // 3) % (m + 9)) - 0.5 for k in range(n)]
        ys = [0.5 * ((k * 5 + k // 7) % 11) - 2.0 for k in range(n)]
        for e in edges:
            for ws in (None, [WT[k % 4] for k in range(n)], [1e-9 * (k % 5) for k in range(n)]):
                c, xb, yb = common.histogram(xs, e, weights=ws)
                self.same(case, c, content(xs, e, ws or [1.0] * n), (m, 1), "long")
                mc.need(list(xb) == e, "edges", case)
                c, xb, yb = common.histogram(xs, e, ys, EDGES[1], ws)
                self.same(case, c, content(xs, e, ws or [1.0] * n, ys, EDGES[1]), (m, 3), "long2")
                mc.S.add("transitions", 2)
        return case
    def h2(self, case):
        xs, ys = [VAL[i] for i in case[1]], [VAL[i] for i in case[2]]
        for a in range(len(EDGES)):
            for b in (a, (a + 3) % len(EDGES), 1):
                for ws in (None, [WT[(i + a) % 4] for i in range(len(xs))]):
                    c, xb, yb = common.histogram(xs, EDGES[a], ys, EDGES[b], ws)
                    self.same(case, c, content(xs, EDGES[a], ws or [1.0] * len(xs), ys, EDGES[b]), (len(EDGES[a]) - 1, len(EDGES[b]) - 1), [a, b, ws])
                    mc.need(list(xb) == EDGES[a] and list(yb) == EDGES[b], "edges", case)
                    mc.S.add("transitions")
        return case
    def check_edges(self, case, edges, n, lo, hi, what):
        mc.need(len(edges) == n + 1, "number-of-edges", case, what, len(edges), n)
        for i, e in enumerate(edges): mc.near(e, lo + (hi - lo) * i / n, "edges", case, what, i, abs_=1e-12)
        mc.need(all(a < b for a, b in zip(edges, edges[1:])), "edges-not-increasing", case, what)
    def limits(self, xs, lo, hi):
        if not xs: a, b = -1.0, 1.0
        else:
            a, b = min(xs), max(xs)
            if a == b: a, b = a - 1, b + 1
        return (a if lo is None else lo, b if hi is None else hi)
    def minmax(self, case):
        xs = [VAL[i] for i in case[1]]
        for ws in itertools.product((0.0, 1.0, 1e-9, 0.5), repeat=case[2]):
            for margin in (None, 0.0, 0.5):
                for lo in (None, -7.0):
                    for hi in (None, 9.0):
                        x0, w0 = list(xs), list(ws)
                        got = common.min_max(x0, w0, **{k: v for k, v in (("margin", margin), ("xmin", lo), ("xmax", hi)) if v is not None})
                        mc.need(x0 == xs and w0 == list(ws), "arguments-changed", case, ws, x0)
                        use = [x for x, w in zip(xs, ws) if w > 1e-6] if len(ws) == len(xs) else xs
                        a, b = (min(use), max(use)) if use else (0.0, 0.0)
                        d = (b - a) * (0.1 if margin is None else margin)
                        a, b = a - d, b + d
                        if b - a < 1e-9: a, b = a - 1, b + 1
                        mc.near(got[0], a if lo is None else lo, "min-max", case, ws, margin, lo, hi)
                        mc.near(got[1], b if hi is None else hi, "min-max", case, ws, margin, lo, hi)
                        mc.S.add("transitions")
        for n in (1, 2, 3, 7):
            for lo in (None, -7.0):
                for hi in (None, 9.0):
                    x0 = list(xs)
                    e = common.get_bin_edges(x0, n, lo, hi)
                    mc.need(x0 == xs, "arguments-changed", case)
                    self.check_edges(case, e, n, *self.limits(xs, lo, hi), what=[n, lo, hi])
        return case
    def nbins(self, case):
        for n in range(case[1], case[1] + 50):
            for dim, power in ((1, 1.0), (2, 0.7), (3, 0.5)):
                for given in itertools.product((None, 4), repeat=3):
                    got = common.n_bins(n, *given, n_dimensions=dim)
                    mc.need(len(got) == 3, "n-bins", case)
                    for i in range(3):
                        if given[i] is not None: mc.need(got[i] == 4, "n-bins", case, dim, given)
                        elif i < dim: mc.need(got[i] >= 1 and isinstance(got[i], int) and got[i] == int(n ** power / 10.0) + 1, "n-bins", case, n, dim, given, got)
                        else: mc.need(got[i] == 0, "n-bins", case, dim, given)
            mc.S.add("transitions", 24)
        return case
    def make(self, xs, kw=1):
        b = Bunch()
        for i, x in enumerate(xs):
            h = Hit()
            h["x"], h["y"], h["event_number"], h["local_weight"] = x, VAL[(i * 2 + 1) % 5], i, WT[(i * kw) % 3]
            b.append(h)
        Hit.clear_global_weights()
        if len(b): b[0]["global_weight"] = 3.0
        return b, [WT[(i * kw) % 3] * (3.0 if i == 0 else 1.0) for i in range(len(xs))], [VAL[(i * 2 + 1) % 5] for i in range(len(xs))]
    def bunch(self, case):
        Hitcore.set_weight_context(WeightContext())
        xs = [VAL[i] for i in case[1]]
        b, ws, ys = self.make(xs)
        for u in ("", "mm", "cm", "m"):
            f = iofmt.UNITS[u]
            ux, uy = [x / f for x in xs], [y / f for y in ys]
            for edges in EDGES[:4]:
                c, xb, yb = b.histogram_var_bins("x", edges, u)
                self.same(case, c, content(ux, edges, ws), (len(edges) - 1, 1), ["var", u, edges])
                c, xb, yb = b.histogram_var_bins("x", edges, u, "y", EDGES[1], u)
                self.same(case, c, content(ux, edges, ws, uy, EDGES[1]), (len(edges) - 1, 3), ["var2", u, edges])
            for nx in (None, 1, 4):
                for lo in (None, -7.0):
                    for hi in (None, 9.0):
                        c, xb, yb = b.histogram("x", u, nx_bins=nx, xmin=lo, xmax=hi)
                        n = nx or int(len(xs) / 10.0) + 1
                        self.check_edges(case, xb, n, *self.limits(ux, lo, hi), what=["1d", u, nx, lo, hi])
                        self.same(case, c, content(ux, xb, ws), (n, 1), ["1d", u, nx, lo, hi])
                        for ny in (None, 2):
                            c, xb, yb = b.histogram("x", u, "y", "mm", nx_bins=nx, ny_bins=ny, xmin=lo, xmax=hi, ymin=hi and -3.0, ymax=lo and 5.0)
                            nx2 = nx or int(len(xs) ** 0.7 / 10.0) + 1
                            ny2 = ny or int(len(xs) ** 0.7 / 10.0) + 1
                            self.check_edges(case, xb, nx2, *self.limits(ux, lo, hi), what=["2d", u, nx, ny, lo, hi])
                            self.check_edges(case, yb, ny2, *self.limits(ys, hi and -3.0, lo and 5.0), what=["2d y", u, nx, ny, lo, hi])
                            self.same(case, c, content(ux, xb, ws, ys, yb), (nx2, ny2), ["2d", u, nx, ny, lo, hi])
                        mc.S.add("transitions", 3)
        for h, x, w, y in zip(b, xs, ws, ys): mc.need(h["x"] == x and h["y"] == y and h["weight"] == w, "bunch-changed", case)
        return case
    def big(self, case):
        Hitcore.set_weight_context(WeightContext())
        xs = [VAL[i % 5] + i for i in range(case[1])]
        b, ws, ys = self.make(xs)
        c, xb, yb = b.histogram("x", "mm")
        n = int(case[1] / 10.0) + 1
        self.check_edges(case, xb, n, *self.limits(xs, None, None), what="1d")
        self.same(case, c, content(xs, xb, ws), (n, 1), "1d")
        c, xb, yb = b.histogram("x", "mm", "y", "mm")
        n = int(case[1] ** 0.7 / 10.0) + 1
        self.check_edges(case, xb, n, *self.limits(xs, None, None), what="2d")
        self.same(case, c, content(xs, xb, ws, ys, yb), (n, n), "2d")
        return case

if __name__ == "__main__":
    mc.main(C20)
