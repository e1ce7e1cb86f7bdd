import itertools, math
import mc
import numpy
import ROOT
ROOT.gROOT.SetBatch(True); ROOT.gErrorIgnoreLevel = 6000
import matplotlib.pyplot as pyplot
import xboa.common as common
import xboa.common.matplotlib_wrapper as wrapper
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder import EllipseClosedOrbitFinderIteration

X, Y = [0.0, 1.0, -2.5, 4.0], [0.0, 3.0, -1.0]
WEIGHTS = [None, [1e-5, 2e-5, 4e-5, 0.0, 1e-6], [1.0, 2.0, 0.5, 1.0, 3.0], [1.0, 0.0, 1.0, 0.0, 2.0], [0.0] * 5]
LIMITS = [(None, None, None, None), (-5.0, 5.0, None, None), (None, 3.0, -2.0, 2.0), (-1.0, None, -7.0, 7.0)]
UNITS = {"": 1.0, "mm": 1.0, "cm": 10.0, "m": 1000.0, "MeV/c": 1.0, "GeV/c": 1000.0, "ns": 1.0, "s": 1e9}

def span(v, margin):
    lo, hi = min(v), max(v)
    d = (hi - lo) * margin
    lo, hi = lo - d, hi + d
    return (lo - 1.0, hi + 1.0) if hi - lo < 1e-9 else (lo, hi)
def limited(lo_hi, a, b): return (lo_hi[0] if a is None else a, lo_hi[1] if b is None else b)
def same(a, b, abs_=1e-9): return len(a) == len(b) and all(len(p) == len(q) and all(abs(u - v) <= abs_ * (1 + abs(v)) for u, v in zip(p, q)) for p, q in zip(a, b))
def xy(line): return [(float(a), float(b)) for a, b in line.get_xydata()]
def root_points(g): return [(g.GetPointX(i), g.GetPointY(i)) for i in range(g.GetN())]

class C38(mc.Check):
    pid = "C38"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of short data sets, weights, limits, units and options through the real plotting functions, reading the drawn objects back, against the data"
    rule = ("all x lists of up to 4 of 4 values with y lists of 3, sorted or not, for the three graph functions, with 4 sets of axis limits; all lists of up to 4 entries with 5 weightings and 3 numbers of bins for the histogram functions, "
            "in one and two dimensions; groups of 1-3 graphs; bunches of up to 4 hits with units, weights, comparators; ratios of all 2 by 2 histograms over 3 contents")
    assumptions = ["a one-dimensional matplotlib histogram leaves out empty bins below the first entry", "colours and styles are not specified"]
    case_timeout = 120
    def cases(self):
        for n in (1, 2, 3, 4) if self.thorough else (1, 2, 3):
            for xs in itertools.product(range(4), repeat=n): yield ["graph", list(xs)]
        for n in (1, 2, 3, 4) if self.thorough else (1, 2, 3):
            for xs in itertools.product(range(4), repeat=n):
                if n < 4 or sum(xs) % 2 == 0: yield ["hist", list(xs)]
        for lens in itertools.chain.from_iterable(itertools.product((1, 2, 3), repeat=k) for k in (1, 2, 3)): yield ["multi", list(lens)]
        for n in (1, 2, 3, 4):
            for ks in itertools.product(range(4), repeat=n):
                if n < (4 if self.thorough else 3) or sum(ks) % 5 == 0: yield ["bunch", list(ks)]
        for a in itertools.product((0, 2, 5), repeat=4): yield ["ratio", list(a)]
        for k in range(12): yield ["ellipse", k]
        for n in (15, 60):
            for k in range(3):
                yield ["graph", [(i * (k + 1) + i // 4 + i * i // 7) % 4 for i in range(n)]]
                yield ["hist", [(i * (k + 1) + i // 4 + i * i // 7) % 4 for i in range(n)]]
        yield ["refuse"]
    def run_case(self, case):
        try: return getattr(self, case[0])(case, *case[1:])
        finally:
            pyplot.close("all")
            common.clear_root()
    def axes(self, case, what, fig, labels, xlim=None, ylim=None):
        ax = pyplot.figure(fig).axes
        mc.need(len(ax) == 1, "one set of axes", case, what, len(ax))
        ax = ax[0]
        mc.need(ax.get_xlabel().strip() == labels[0].strip() and ax.get_ylabel().strip() == labels[1].strip(), "labels", case, what, (ax.get_xlabel(), ax.get_ylabel()), labels)
        if xlim: mc.need(same([ax.get_xlim(), ax.get_ylim()], [xlim, ylim]), "range of the axes", case, what, (ax.get_xlim(), ax.get_ylim()), (xlim, ylim))
        return ax
    def root_axes(self, case, what, hist, labels, xlim, ylim):
        a, b = hist.GetXaxis(), hist.GetYaxis()
        mc.need(a.GetTitle() == labels[0] and b.GetTitle() == labels[1], "labels", case, what, (a.GetTitle(), b.GetTitle()), labels)
        mc.need(same([(a.GetXmin(), a.GetXmax()), (b.GetXmin(), b.GetXmax())], [xlim, ylim], 1e-7), "range of the axes", case, what, (a.GetXmin(), a.GetXmax(), b.GetXmin(), b.GetXmax()), (xlim, ylim))
    def graph(self, case, idx):
        xs = [X[i] for i in idx]
        n, figs = len(xs), set()
        for k, ys in enumerate(itertools.product(Y, repeat=n) if n < 6 else [[Y[(i * i + i // 3 + k) % 3] for i in range(n)] for k in range(16)]):
            if 2 < n < 6 and k % 4 and not self.thorough: continue
            ys = list(ys)
            data = list(zip(xs, ys))
            ordered = sorted(data, key=lambda p: p[0])
            for sort in (True, False):
                want = ordered if sort else data
                a, b = list(xs), list(ys)
                if (k + sort) % 4 == 0:
                    fig = common.make_matplot_graph(a, "x [mm]", b, "$y$", sort) if k % 3 or not sort else common.make_matplot_graph(a, "x [mm]", b, "$y$")
                    ax = self.axes(case, "make_matplot_graph", fig, ("x [mm]", "$y$"), span(xs, 0.1), span(ys, 0.1))
                    mc.need(len(ax.lines) == 1 and same(xy(ax.lines[0]), want), "points of a graph", case, "make_matplot_graph", sort, ys, [xy(q) for q in ax.lines])
                    mc.need(fig not in figs, "two graphs in one figure", case)
                    figs.add(fig)
                elif (k + sort) % 4 == 1:
                    fig = wrapper.make_graph(a, "X", b, "Y", sort, None, {"linewidth": 2.5}) if k % 3 or not sort else wrapper.make_graph(a, "X", b, "Y", kwds={"linewidth": 2.5})
                    ax = self.axes(case, "make_graph", fig, ("X", "Y"), span(xs, 0.1), span(ys, 0.1))
                    mc.need(len(ax.lines) == 1 and same(xy(ax.lines[0]), want) and ax.lines[0].get_linewidth() == 2.5, "points of a graph", case, "make_graph", sort, ys, [xy(q) for q in ax.lines])
                    again = wrapper.make_graph(list(ys), "U", list(xs), "V", False, fig)
                    mc.need(again == fig and same(xy(pyplot.figure(fig).axes[0].lines[-1]), list(zip(ys, xs))), "graph in a given figure", case, ys)
                elif (k + sort) % 4 == 2:
                    fig = common.make_matplot_scatter(a, "x", b, "y") if sort else wrapper.make_scatter(a, "x", b, "y")
                    ax = self.axes(case, "scatter", fig, ("x", "y"))
                    mc.need(len(ax.collections) == 1 and same([tuple(map(float, p)) for p in ax.collections[0].get_offsets()], data), "points of a scatter plot", case, ys, ax.collections[0].get_offsets().tolist())
                pyplot.close("all")
                lim = LIMITS[(k + sort + n) % 4]
                hist, g = common.make_root_graph("g", a, "x title", b, "y title", sort, *lim) if k % 3 or not sort or lim != LIMITS[0] else common.make_root_graph("g", a, "x title", b, "y title")
                mc.need(same(root_points(g), want), "points of a graph", case, "make_root_graph", sort, ys, root_points(g))
                self.root_axes(case, "make_root_graph", hist, ("x title", "y title"), limited(span(xs, 0.1), *lim[:2]), limited(span(ys, 0.1), *lim[2:]))
                mc.need((a, b) == (xs, ys), "data of the caller changed", case, sort, ys, a, b)
                mc.S.add("transitions", 2)
                common.clear_root()
        return "graph:%s" % sorted(idx)
    def bins(self, case, what, hist, data, weights, two):
        """Each entry is in the ROOT bin that contains it"""
        axes = [hist.GetXaxis()] + ([hist.GetYaxis()] if two else [])
        want = {}
        for p, w in zip(data, weights):
            cell = []
            for a, v in zip(axes, p):
                n = a.GetNbins()
                cell.append(0 if v < a.GetXmin() else n + 1 if v >= a.GetXmax() else next(i for i in range(1, n + 1) if a.GetBinLowEdge(i) <= v < a.GetBinUpEdge(i) or i == n))
            want[tuple(cell)] = want.get(tuple(cell), 0.0) + w
        for cell in itertools.product(*[range(a.GetNbins() + 2) for a in axes]):
            mc.near(hist.GetBinContent(*cell), want.get(cell, 0.0), "content of a bin", case, what, cell, hist.GetBinContent(*cell), want)
    def hist(self, case, idx):
        xs, n = [X[i] for i in idx], len(idx)
        ys = [Y[(i + k) % 3] for k, i in enumerate(idx)]
        for wi, w in enumerate(WEIGHTS):
            w = w and (w * n)[:n]
            total = math.fsum(w or [1.0] * n)
            args = (list(xs), list(ys), list(w or []))
            for nb in (1, 2, 4):
                lo, hi = (min(xs), max(xs)) if max(xs) > min(xs) else (xs[0] - 0.5, xs[0] + 0.5)
                content = [0.0] * nb
                for x, v in zip(xs, w or [1.0] * n): content[min(int((x - lo) / (hi - lo) * nb), nb - 1)] += v
                first = next((i for i, c in enumerate(content) if abs(c) >= 1e-9), nb)
                want = [(lo + (hi - lo) * (i + 0.5) / nb, c) for i, c in enumerate(content)][first:]
                lines = common.make_matplot_histogram(args[0], "x", nb, weight_list=args[2])
                self.axes(case, "make_matplot_histogram", pyplot.gcf().number, ("x", ""))
                mc.need(len(lines) == 1 and same(xy(lines[0]), want), "contents of a histogram", case, "make_matplot_histogram", nb, w, xy(lines[0]), want)
                fig = wrapper.make_histogram(args[0], "x", nb, weight_list=args[2])
                ax = self.axes(case, "make_histogram", fig, ("x", ""))
                mc.need(len(ax.lines) == 1 and same(xy(ax.lines[0]), want), "contents of a histogram", case, "make_histogram", nb, w, xy(ax.lines[0]), want)
                if nb < 4:
                    hexes = common.make_matplot_histogram(args[0], "x", nb, args[1], "y", nb, args[2])
                    self.axes(case, "make_matplot_histogram", pyplot.gcf().number, ("x", "y"))
                    mc.near(float(numpy.ma.sum(hexes.get_array())), total, "sum of the cells", case, nb, w, hexes.get_array().tolist())
                    if len(set(xs)) == 1 and len(set(ys)) == 1: mc.need(numpy.count_nonzero(hexes.get_array()) <= 1, "one point in several cells", case)
                    fig = wrapper.make_histogram(args[0], "x", nb, args[1], "y", nb + 1, args[2])
                    ax = self.axes(case, "make_histogram", fig, ("x", "y"))
                    l2, h2 = (min(ys), max(ys)) if max(ys) > min(ys) else (ys[0] - 0.5, ys[0] + 0.5)
                    cells = numpy.zeros((nb + 1, nb))
                    for x, y, v in zip(xs, ys, w or [1.0] * n): cells[min(int((y - l2) / (h2 - l2) * (nb + 1) + 1e-9), nb), min(int((x - lo) / (hi - lo) * nb), nb - 1)] += v
                    if nb + 1 != 3: mc.need(numpy.allclose(numpy.array(ax.collections[0].get_array()).reshape(nb + 1, nb), cells), "contents of a histogram", case, "2d", nb, w, ax.collections[0].get_array().tolist(), cells.tolist())
                    else: mc.near(float(numpy.sum(ax.collections[0].get_array())), total, "sum of the cells", case, nb, w)
                pyplot.close("all")
                used = [x for x, v in zip(xs, w or [1.0] * n) if v > 0]
                usedy = [y for y, v in zip(ys, w or [1.0] * n) if v > 0]
                lim = LIMITS[(nb + n + wi) % 4]
                for v, a in ((used, 0), (usedy, 2)):
                    r = limited(span(v or [0.0], 0.0), *lim[a:a + 2])
                    if r[0] >= r[1]: lim = LIMITS[0] # limits that leave no range
                h1 = common.make_root_histogram("h", args[0], "x title", nb, weight_list=args[2], xmin=lim[0], xmax=lim[1])
                mc.need(h1.GetNbinsX() == nb and h1.GetXaxis().GetTitle() == "x title", "bins and label", case, nb)
                mc.need(same([(h1.GetXaxis().GetXmin(), h1.GetXaxis().GetXmax())], [limited(span(used or [0.0], 0.0), *lim[:2])], 1e-7), "range of a histogram", case, nb, w, lim, h1.GetXaxis().GetXmin(), h1.GetXaxis().GetXmax())
                self.bins(case, "make_root_histogram", h1, [(x,) for x in xs], w or [1.0] * n, False)
                h2 = common.make_root_histogram("h", args[0], "x title", nb, args[1], "y title", nb + 2, args[2], *lim)
                mc.need(h2.GetNbinsX() == nb and h2.GetNbinsY() == nb + 2, "bins", case, nb)
                self.root_axes(case, "make_root_histogram", h2, ("x title", "y title"), limited(span(used or [0.0], 0.0), *lim[:2]), limited(span(usedy or [0.0], 0.0), *lim[2:]))
                self.bins(case, "make_root_histogram", h2, list(zip(xs, ys)), w or [1.0] * n, True)
                if lim == LIMITS[0]:
                    mc.near(h1.Integral(), total, "entry outside an automatic range", case, nb, w)
                    mc.near(h2.Integral(), total, "entry outside an automatic range", case, "2d", nb, w)
                mc.need(args == (xs, ys, w or []), "data of the caller changed", case, args)
                mc.S.add("transitions", 6)
        return "hist:%s" % sorted(idx)
    def multi(self, case, lens):
        """Several graphs on one set of axes"""
        for k in range(6):
            xs = [[X[(3 * i * (j + 1) + k + j) % 4] for i in range(m)] for j, m in enumerate(lens)]
            ys = [[Y[(i + 2 * j + k) % 3] + j for i in range(m)] for j, m in enumerate(lens)]
            a, b = [list(v) for v in xs], [list(v) for v in ys]
            allx, ally = sum(xs, []), sum(ys, [])
            want = [sorted(zip(u, v), key=lambda p: p[0]) for u, v in zip(xs, ys)]
            common.make_matplot_multigraph(a, "x", b, "y")
            ax = self.axes(case, "make_matplot_multigraph", pyplot.gcf().number, ("x", "y"), span(allx, 0.1), span(ally, 0.1))
            mc.need(len(ax.lines) == len(lens) and all(same(xy(q), w) for q, w in zip(ax.lines, want)), "points of the graphs", case, "make_matplot_multigraph", [xy(q) for q in ax.lines], want)
            mc.need((a, b) == (xs, ys), "data of the caller changed", case, "make_matplot_multigraph", a, b)
            kwds = [{"linewidth": 1.0 + i} for i in range(k % 4)]
            fig = wrapper.make_multigraph(a, "x", b, "y", None, kwds)
            ax = self.axes(case, "make_multigraph", fig, ("x", "y"), span(allx, 0.1), span(ally, 0.1))
            mc.need(len(ax.lines) == len(lens) and all(same(xy(q), w) for q, w in zip(ax.lines, want)), "points of the graphs", case, "make_multigraph", [xy(q) for q in ax.lines], want)
            mc.need(all(q.get_linewidth() == 1.0 + i for i, q in enumerate(ax.lines[:len(kwds)])), "options of the graphs", case, kwds)
            mc.need((a, b) == (xs, ys), "data of the caller changed", case, "make_multigraph", a, b)
            hist, graphs = common.make_root_multigraph("m", a, "x", b, "y")
            self.root_axes(case, "make_root_multigraph", hist, ("x", "y"), span(allx, 0.1), span(ally, 0.1))
            mc.need(len(graphs) == len(lens) and all(same(root_points(g), list(zip(u, v))) for g, u, v in zip(graphs, xs, ys)), "points of the graphs", case, "make_root_multigraph", [root_points(g) for g in graphs])
            mc.need((a, b) == (xs, ys), "data of the caller changed", case, "make_root_multigraph", a, b)
            if k == 0:
                canvas = common.make_root_canvas("c")
                leg = common.make_root_legend(canvas, graphs)
                mc.need(leg.GetListOfPrimitives().GetSize() == len(graphs), "entries of a legend", case)
            mc.S.add("transitions", 3)
            pyplot.close("all")
            common.clear_root()
        return "multi:%s" % lens
    def bunch(self, case, ks):
        """Hits and bunches drawn in units, by weight and in order"""
        raw, hits = [], []
        vx, vy, ux, uy = [("x", "y", "mm", "m"), ("px", "x", "GeV/c", "cm"), ("t", "pz", "s", ""), ("y", "px", "", "MeV/c")][sum(ks) % 4]
        for i, k in enumerate(ks):
            d = {"x": 10.0 * X[k], "y": Y[(i + k) % 3], "px": 5.0 * i - k, "pz": 100.0 + k, "t": X[(k + i) % 4], "mass": 100.0, "pid": -13, "event_number": i + 1, "local_weight": [1.0, 0.0, 2.5, 1.0][(i + k) % 4]}
            hits.append(Hit.new_from_dict(d))
            raw.append(d)
        b = Bunch.new_from_hits(hits)
        before = [[h[v] for v in ("x", "y", "px", "py", "pz", "t", "energy", "weight", "event_number")] for h in b]
        data = [(d[vx] / UNITS[ux], d[vy] / UNITS[uy]) for d in raw]
        w = [d["local_weight"] for d in raw]
        lx, ly = vx + (" [%s]" % ux if ux else ""), vy + (" [%s]" % uy if uy else "")
        n = len(ks)
        for weightless in (True, False):
            shown = [p for p, v in zip(data, w) if weightless or v]
            if not shown: continue
            fig = b.matplot_scatter_graph(vx, vy, ux, uy, weightless)
            ax = self.axes(case, "matplot_scatter_graph", fig.number, (lx, ly))
            mc.need(same([tuple(map(float, p)) for p in ax.collections[0].get_offsets()], shown), "points of a scatter plot", case, weightless, ax.collections[0].get_offsets().tolist(), shown)
            lim = LIMITS[(n + weightless) % 4]
            canvas, hist, g = b.root_scatter_graph(vx, vy, ux, uy, weightless, None, *lim)
            mc.need(same(sorted(root_points(g)), sorted(shown)), "points of a scatter plot", case, "root", weightless, root_points(g), shown)
            self.root_axes(case, "root_scatter_graph", hist, (lx, ly), limited(span([p[0] for p in shown], 0.1), *lim[:2]), limited(span([p[1] for p in shown], 0.1), *lim[2:]))
        for nb, option in ((1, ""), (3, "COLZ"), (None, "")):
            canvas, h1 = b.root_histogram(vx, ux, nx_bins=nb)
            mc.need(h1.GetXaxis().GetTitle() == lx and h1.GetNbinsX() == (nb or h1.GetNbinsX()), "label and bins", case, nb, h1.GetXaxis().GetTitle())
            self.bins(case, "root_histogram", h1, [p[:1] for p in data], w, False)
            mc.near(h1.Integral(), math.fsum(w), "sum of the weights", case, nb)
            canvas, h2 = b.root_histogram(vx, ux, vy, uy, nx_bins=nb, ny_bins=nb, draw_option=option)
            mc.need(h2.GetDimension() == 2 and h2.GetXaxis().GetTitle() == lx and h2.GetYaxis().GetTitle() == ly, "dimension and labels", case, option, h2.GetDimension())
            self.bins(case, "root_histogram", h2, data, w, True)
            mc.near(h2.Integral(), math.fsum(w), "sum of the weights", case, nb, option)
        lines = b.matplot_histogram(vx, ux)
        self.axes(case, "matplot_histogram", pyplot.gcf().number, (lx, ""))
        mc.near(sum(p[1] for p in xy(lines[0])), math.fsum(w), "sum of the weights", case, "matplot_histogram")
        hexes = b.matplot_histogram(vx, ux, vy, uy)
        self.axes(case, "matplot_histogram", pyplot.gcf().number, (lx, ly))
        mc.near(float(numpy.ma.sum(hexes.get_array())), math.fsum(w), "sum of the weights", case, "matplot_histogram 2d", hexes.get_array().tolist())
        mc.need([[h[v] for v in ("x", "y", "px", "py", "pz", "t", "energy", "weight", "event_number")] for h in b] == before, "hits changed by drawing", case)
        mc.S.add("transitions", 12)
        # on a canvas that is there already
        c0, h0, g0 = b.root_scatter_graph(vx, vy)
        first = root_points(g0)
        c1, h1, g1 = b.root_scatter_graph(vy, vx, canvas=c0)
        c2, h2 = b.root_histogram(vx, ux, nx_bins=3, canvas=c0)
        c3, h3, g3 = Bunch.root_graph([Bunch.new_from_hits([h]) for h, v in zip(hits, w) if v], "mean", [vx], "mean", [vy], canvas=c0) if any(w) else (c0, None, None)
        mc.need(c1 == c0 and c2 == c0 and c3 == c0, "drawn on another canvas", case)
        there = list(c0.GetListOfPrimitives())
        mc.need(all(any(q == p for p in there) for q in (h0, g0, g1, h2) + ((g3,) if g3 else ())), "not on the canvas", case)
        mc.need(root_points(g0) == first and same(sorted(root_points(g1)), sorted((d[vy], d[vx]) for d in raw)), "graph on a given canvas", case, root_points(g1))
        # one bunch per hit with weight, drawn by their means
        group = [Bunch.new_from_hits([h]) for h, v in zip(hits, w) if v]
        points = [p for p, v in zip(data, w) if v]
        empty = Bunch.new_from_hits([Hit.new_from_dict({"local_weight": 0.0, "pid": -13, "mass": 100.0})])
        names = ("mean( %s )%s" % (vx, " [%s]" % ux if ux else ""), "mean( %s )%s" % (vy, " [%s]" % uy if uy else ""))
        if group:
            for comparator in (None, lambda p, q: (p.get("mean", ["y"]) < q.get("mean", ["y"])) - (p.get("mean", ["y"]) > q.get("mean", ["y"]))):
                for container in (list(group), {5 - i: q for i, q in enumerate(group)}):
                    ids = [id(q) for q in group]
                    if comparator is None: want = sorted(points, key=lambda p: p[0])
                    else: want = [p for p, d in sorted([(p, d) for p, d, v in zip(points, [d for d, v in zip(raw, w) if v], points)], key=lambda q: -q[1]["y"])]
                    fig = Bunch.matplot_graph(container, "mean", [vx], "mean", [vy], ux, uy, comparator)
                    ax = pyplot.figure(fig.number).axes[0]
                    mc.need(len(ax.lines) == 1 and same(xy(ax.lines[0]), want), "points of a graph of bunches", case, comparator is None, xy(ax.lines[0]), want)
                    mc.need([" ".join(s.split()) for s in (ax.get_xlabel(), ax.get_ylabel())] == [" ".join(s.split()) for s in names], "labels", case, ax.get_xlabel(), names)
                    canvas, hist, g = Bunch.root_graph(container, "mean", [vx], "mean", [vy], ux, uy, None, comparator)
                    mc.need(same(root_points(g), want), "points of a graph of bunches", case, "root", comparator is None, root_points(g), want)
                    mc.need([" ".join(s.split()) for s in (hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle())] == [" ".join(s.split()) for s in names], "labels", case, hist.GetXaxis().GetTitle(), names)
                    if comparator is None and isinstance(container, list):
                        for at in (0, len(container)): # one without weight has no mean
                            more = container[:at] + [empty] + container[at:]
                            canvas, hist, g = Bunch.root_graph(more, "mean", [vx], "mean", [vy], ux, uy)
                            mc.need(same(root_points(g), want), "points beside a bunch without weight", case, "root", at, root_points(g), want)
                    mc.need([id(q) for q in (container if isinstance(container, list) else container.values())] == ids, "bunches of the caller put in another order", case)
                    mc.S.add("transitions", 2)
        return "bunch:%s" % ks
    def ratio(self, case, a):
        for k, den in enumerate(itertools.product((0, 1, 4), repeat=4)):
            if not self.thorough and (k + sum(a)) % 9: continue
            h1, h2 = [[a[0], a[1]], [a[2], a[3]]], [[den[0], den[1]], [den[2], den[3]]]
            if k % 2: h1, h2 = numpy.array(h1, dtype=float), numpy.array(h2, dtype=float)
            edges = ([0.0, 1.0, 3.0], [-1.0, 0.5, 1.0])
            fig, ax = pyplot.subplots()
            out = wrapper.plot_hist2d_ratio(ax, h1, h2, *edges, on_nan=-7.0 if k % 3 else 0.0)
            want = [[(a[2 * i + j] / den[2 * i + j] if den[2 * i + j] else (-7.0 if k % 3 else 0.0)) for j in range(2)] for i in range(2)]
            mc.need(numpy.allclose(out[0], want), "ratio of histograms", case, den, out[0].tolist(), want)
            mc.need(list(out[1]) == edges[0] and list(out[2]) == edges[1], "edges of the ratio", case, den)
            mc.need(numpy.array_equal(h1, [[a[0], a[1]], [a[2], a[3]]]) and numpy.array_equal(h2, [[den[0], den[1]], [den[2], den[3]]]), "histograms of the caller changed", case, den)
            mc.S.add("transitions")
            pyplot.close("all")
        return "ratio:%s" % a
    def ellipse(self, case, k):
        """Points and ellipse of a closed orbit in the units of the axes"""
        pts = [[10.0 + 3 * math.cos(i + k), 7.0 + 2 * math.sin(i + k * 0.5), 0.5 * i * (k + 1) % 4, float(i * i % 5)] for i in range(6)]
        keys = ["x", "px", "t", "energy"]
        it = EllipseClosedOrbitFinderIteration(keys, pts, 1e6, k % 4 != 3)
        vx, vy, ux, uy = [("x", "px", "cm", "GeV/c"), ("px", "t", "MeV/c", "s"), ("t", "x", "", "m")][k % 3]
        i, j = keys.index(vx), keys.index(vy)
        want = [(p[i] / UNITS[ux], p[j] / UNITS[uy]) for p in pts]
        lx, ly = vx + (" [%s]" % ux if ux else ""), vy + (" [%s]" % uy if uy else "")
        fig = it.plot_ellipse_matplotlib(vx, vy, ux, uy)
        ax = self.axes(case, "plot_ellipse_matplotlib", fig, (lx, ly))
        mc.need(same([tuple(map(float, p)) for p in ax.collections[0].get_offsets()], want), "points of an orbit", case, ax.collections[0].get_offsets().tolist(), want)
        canvas, hist, ell, g = it.plot_ellipse_root(vx, vy, ux, uy)
        mc.need(same(sorted(root_points(g)), sorted(want)), "points of an orbit", case, "root", root_points(g), want)
        mc.need((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()) == (lx, ly), "labels", case, hist.GetXaxis().GetTitle())
        if k % 4 != 3:
            mean = [sum(p[q] for p in pts) / 6 for q in (i, j)]
            cov = numpy.array([[sum((p[q] - mean[c]) * (p[r] - mean[d]) for p in pts) / 6 for d, r in enumerate((i, j))] for c, q in enumerate((i, j))])
            inv = numpy.linalg.inv(cov)
            for p in pts:
                d = numpy.array([p[i] - mean[0], p[j] - mean[1]])
                mc.near(ell.Eval(p[i] / UNITS[ux], p[j] / UNITS[uy]), float(d @ inv @ d), "ellipse of an orbit", case, p, rel=1e-6, abs_=1e-6)
        mc.S.add("transitions", 2)
        return "ellipse:%d" % k
    def refuse(self, case):
        """No data or unequal lists are refused"""
        for f in (lambda a, b: common.make_matplot_graph(a, "x", b, "y"), lambda a, b: wrapper.make_graph(a, "x", b, "y"), lambda a, b: common.make_root_graph("g", a, "x", b, "y"), lambda a, b: wrapper.make_scatter(a, "x", b, "y")):
            for a, b in (([], []), ([1.0], []), ([1.0, 2.0], [1.0]), ([], [1.0])):
                try: f(list(a), list(b))
                except IndexError: continue
                mc.need(False, "a graph without data", case, a, b)
        for f in (lambda: common.make_matplot_histogram([], "x", 3), lambda: wrapper.make_histogram([], "x", 3), lambda: common.make_matplot_scatter([], "x", [], "y")):
            try: f()
            except IndexError: continue
            mc.need(False, "a histogram without data", case)
        for k in range(4):
            try: wrapper.plot_hist2d_ratio(pyplot.subplots()[1], [[1, 2], [3, 4]][:1 + k % 2], [[1, 2], [3]] if k % 2 else [[1, 2], [3, 4]], [0, 1, 2], [0, 1, 2])
            except ValueError: continue
            mc.need(False, "a ratio of histograms of different shape", case, k)
        return "refuse"

if __name__ == "__main__": mc.main(C38)
