import itertools, math
import mc
import numpy
import ROOT
ROOT.gROOT.SetBatch(True); ROOT.gErrorIgnoreLevel = 6000
import matplotlib.pyplot as pyplot
import xboa.common as common
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.bunch.weighting import VoronoiWeighting, BoundingEllipse
from xboa.algorithms.tune import FFTTuneFinder, DPhiTuneFinder
import models

def root_points(g): return [(g.GetPointX(i), g.GetPointY(i)) for i in range(g.GetN())]
def same(a, b, rel=1e-9): return len(a) == len(b) and all(abs(u - v) <= rel * (1 + abs(v)) for p, q in zip(a, b) for u, v in zip(p, q))
TUNES = [0.1, 0.23, 0.317, 0.41]
SHAPES = [(1.0, 1.0, 0.0), (5.0, 0.2, 0.0), (2.0, 3.0, 0.8), (0.01, 40.0, -1.5)]
FILLS = [None, "none", "weight", "content", "pdf"]
def signal(n, tune, shape, off=(0.0, 0.0)):
    a, b, skew = shape
    u = [off[0] + a * math.cos(2 * math.pi * tune * i) for i in range(n)]
    up = [off[1] + b * (math.sin(2 * math.pi * tune * i) + skew * math.cos(2 * math.pi * tune * i)) for i in range(n)]
    return u, up

class C45(mc.Check):
    pid = "C45"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of small orbits, spectra and tesselations with every option of their drawings, reading the drawn objects back, against the data and results of the analysis"
    rule = ("4 tunes, 4 shapes of orbit, 2 centres, 3 lengths, with 3 scales, on a new or given canvas or figure, before and after others; 5 fill options, every pair of axes in either order and every slice of tesselations of up to 3 dimensions, "
            "with and without bound; windows and functions of spectrum fits; refusals")
    assumptions = ["colours are compared only for equality or difference of tiles filled by a value", "tiles of tesselations in more than two dimensions are compared as sets of corners"]
    case_timeout = 120
    def cases(self):
        lens = (6, 11, 24) if not self.thorough else (6, 7, 11, 16, 24, 51)
        for t, s, n, o in itertools.product(range(4), range(4), lens, (0, 1)): yield ["dphi", t, s, n, o]
        for t, s, n, o in itertools.product(range(4), range(4), (11, 24, 51) if not self.thorough else (11, 12, 24, 25, 51, 101), (0, 1)): yield ["fft", t, s, n, o]
        for t, n, w in itertools.product(range(4), (25, 51), range(3)): yield ["fit", t, n, w]
        for dim, n, bound, f in itertools.product((2, 3), (8, 11) if not self.thorough else (6, 8, 11, 15), (0, 1, 2), range(5)): yield ["tiles", dim, n, bound, f]
        yield ["refuse"]
    def run_case(self, case):
        try: return getattr(self, case[0])(case, *case[1:])
        finally:
            pyplot.close("all")
            common.clear_root()
            Hit.clear_global_weights()
    def drawn(self, canvas, thing): return any(p == thing for p in canvas.GetListOfPrimitives())
    def dphi(self, case, t, s, n, o):
        u, up = signal(n, TUNES[t], SHAPES[s], ((0.0, 0.0), (30.0, -4.0))[o])
        f = DPhiTuneFinder(list(u), list(up))
        f.axis1, f.axis2 = "x", "px"
        tune = f.get_tune()
        raw = list(zip(u, up))
        canvas, hist, g = f.plot_phase_space_root()
        mc.need(same(sorted(root_points(g)), sorted(raw)), "points of the orbit", case, root_points(g), raw)
        mc.need((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()) == ("x", "px"), "labels", case, hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle())
        mc.need(self.drawn(canvas, g) and self.drawn(canvas, hist), "not on the canvas", case)
        fig = f.plot_phase_space_matplotlib("first", "second")
        ax = pyplot.figure(fig).axes[0]
        mc.need((ax.get_xlabel(), ax.get_ylabel()) == ("first", "second"), "labels", case, ax.get_xlabel())
        mc.need(same([tuple(map(float, p)) for p in ax.collections[0].get_offsets()], raw), "points of the orbit", case, "matplotlib", ax.collections[0].get_offsets().tolist(), raw)
        # projected on a circle: distances from the centre in units of the ellipse, advancing by the tune
        inv = numpy.linalg.inv(numpy.array(f.ellipse))
        dist = [math.sqrt(float(numpy.array([p[0] - f.centre[0], p[1] - f.centre[1]]) @ inv @ numpy.array([p[0] - f.centre[0], p[1] - f.centre[1]]))) for p in raw]
        first = None
        for scale in (1.0, 1.25, 0.5):
            on = first[0] if first else None
            canvas2, hist2, g2 = f.plot_cholesky_space_root(on, scale) if on or scale != 1.0 else f.plot_cholesky_space_root()
            if on: mc.need(canvas2 == on and self.drawn(on, g2) and self.drawn(on, first[2]), "graph in a given canvas", case, scale)
            else: first = (canvas2, hist2, g2)
            pts = root_points(g2)
            mc.need(len(pts) == n, "points on the circle", case, scale, len(pts))
            for k in (0, 1):
                if k:
                    fig2 = f.plot_cholesky_space_matplotlib(None if scale == 1.0 else fig2, scale)
                    mc.need(len(pyplot.figure(fig2).axes) >= 1, "figure", case)
                    sets = [c for a in pyplot.figure(fig2).axes for c in a.collections]
                    pts = [tuple(map(float, p)) for p in sets[-1].get_offsets()]
                    for p, d in zip(pts, dist): mc.near(math.hypot(*p), d * scale, "points on the circle", case, k, scale, rel=1e-6)
                    for p, q, d in zip(pts, pts[1:], f.dphi): mc.near((math.atan2(p[1], p[0]) - math.atan2(q[1], q[0])) / 2 / math.pi % 1.0, d % 1.0, "advance on the circle", case, scale, abs_=1e-6)
                else:
                    for d, e in zip(sorted(math.hypot(*p) for p in pts), sorted(dist)): mc.near(d, e * scale, "points on the circle", case, k, scale, rel=1e-6)
        mc.near(sum(f.dphi) / len(f.dphi), tune, "tune", case, rel=1e-9)
        mc.need((f.u, f.up) == (u, up), "data changed by drawing", case)
        mc.S.add("transitions", 8)
        return "dphi:%d:%d:%d" % (t, s, n)
    def fft(self, case, t, s, n, o):
        u, up = signal(n, TUNES[t], SHAPES[s])
        u = [x + 0.01 * ((i * i) % 3 - 1) for i, x in enumerate(u)]
        f = FFTTuneFinder(list(u), list(up))
        for k in range(2):
            if (k == 0) == (o == 0): # before or after the tune was found
                m = len(f.u)
                canvas, hist, g = f.plot_signal("signal")
                mc.need(same(root_points(g), [(i, x) for i, x in enumerate(u[:m])]), "signal", case, root_points(g), u)
                mc.need((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle(), hist.GetTitle()) == ("count", "signal", "signal"), "labels", case, hist.GetTitle())
                canvas, hist, g = f.plot_phase_space("space")
                mc.need(same(sorted(root_points(g)), sorted(zip(u[:m], up[:m]))), "points of the orbit", case, root_points(g), [u, up])
                mc.need((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle(), hist.GetTitle()) == ("displacement", "divergence", "space"), "labels", case, hist.GetTitle())
                mc.need(self.drawn(canvas, g), "not on the canvas", case)
            else:
                for lim in ((None, None), (1e-2, None), (1e-3, 1e4)):
                    canvas, hist, g = f.plot_fft("spectrum", *lim)
                    pts = root_points(g)
                    a = hist.GetYaxis()
                    want = [abs(sum(x * complex(math.cos(2 * math.pi * i * q), math.sin(2 * math.pi * i * q)) for i, x in enumerate(f.u))) for q, _ in pts]
                    for p, w in zip(pts, want): mc.near(p[1], w, "magnitude in a spectrum", case, p, w, rel=1e-6, abs_=1e-7)
                    ks = [p[0] for p in pts]
                    mc.need(ks == sorted(ks) and set(range(len(f.u) // 2 + 1)) <= set(round(q * len(f.u), 9) for q in ks), "frequencies of a spectrum", case, ks)
                    mc.near(a.GetXmin(), lim[0] if lim[0] is not None else max(1e-5, min(p[1] for p in pts)), "lower edge of a spectrum", case, lim)
                    if lim[1] is not None: mc.near(a.GetXmax(), lim[1], "upper edge of a spectrum", case, lim)
                    mc.need((hist.GetXaxis().GetTitle(), a.GetTitle(), hist.GetTitle(), canvas.GetLogy()) == ("frequency", "magnitude", "spectrum", 1), "labels", case, hist.GetTitle())
                    mc.need(f.fractional_tune is not None and any(abs(q - f.fractional_tune) < 1e-12 for q in ks), "tune found and in the spectrum", case, f.fractional_tune)
        mc.S.add("transitions", 5)
        return "fft:%d:%d:%d" % (t, s, n)
    def fit(self, case, t, n, w):
        """A fit sees only its window"""
        u, up = signal(n, TUNES[t], SHAPES[0])
        if w: u = [x + 0.6 * math.cos(2 * math.pi * (0.05 if TUNES[t] > 0.2 else 0.45) * i) for i, x in enumerate(u)]
        f = FFTTuneFinder(u, up)
        f.get_tune()
        peak = f.k_mag_x.index(f.fractional_tune)
        lo, hi = max(0, peak - 3), min(len(f.k_mag_x) - 1, peak + 3)
        own = None
        if w == 2:
            own = ROOT.TF1("parabola", "[0]+[1]*(x-%r)+[2]*(x-%r)**2" % (f.fractional_tune, f.fractional_tune), f.k_mag_x[lo], f.k_mag_x[hi])
        canvas, hist, g, fit = f.plot_fft_fit("fit", peak, lo, hi, own)
        pts = list(zip(f.k_mag_x, f.k_mag_y))
        mc.need(same(root_points(g), pts), "spectrum with a fit", case, root_points(g), pts)
        mc.need(own is None or fit == own, "fit function of the caller", case)
        mc.near(fit.GetXmin(), f.k_mag_x[lo], "window of a fit", case)
        mc.near(fit.GetXmax(), f.k_mag_x[hi], "window of a fit", case)
        if own is not None: # linear least squares over the window
            A = numpy.array([[1.0, x - f.fractional_tune, (x - f.fractional_tune) ** 2] for x, y in pts[lo:hi + 1]])
            want = A @ numpy.linalg.lstsq(A, numpy.array([y for x, y in pts[lo:hi + 1]]), rcond=None)[0]
            for (x, y), v in zip(pts[lo:hi + 1], want): mc.near(fit.Eval(x), float(v), "fit over a window", case, x, fit.Eval(x), float(v), rel=1e-3, abs_=1e-3 * max(f.k_mag_y))
        mc.S.add("transitions")
        return "fit:%d:%d:%d" % (t, n, w)
    def tiles(self, case, dim, n, bound, fi):
        names = ["x", "px", "y"][:dim]
        pts = [[((7 * i) % n) * 1.0 + 0.13 * (i % 3), ((5 * i + 2) % n) * 2.0 + 0.21 * (i % 4), ((3 * i + 1) % n) * 0.5 + 0.07 * (i % 5)][:dim] for i in range(n)]
        b = Bunch.new_from_hits([Hit.new_from_dict(dict(zip(names, p), event_number=i + 1, pid=-13, mass=105.0)) for i, p in enumerate(pts)])
        ell = numpy.diag([25.0, 100.0, 9.0][:dim])
        w = VoronoiWeighting(names, ell, numpy.array([3.0, 7.0, 2.0][:dim]), BoundingEllipse(ell * (30 if bound == 1 else 0.6), numpy.array([3.0, 7.0, 2.0][:dim]), 40 if dim == 2 else 6) if bound else None)
        w.apply_weights(b, False)
        real = [tuple(map(float, p)) for p in w.real_points]
        weights = {tuple(h[v] for v in names): h["local_weight"] for h in b}
        mc.need(all(p in weights for p in real), "points of a tesselation", case, real, weights)
        tess = w.tesselation
        for axes in itertools.permutations(names, 2):
            i, j = names.index(axes[0]), names.index(axes[1])
            for lower, upper in ((None, None), (0, 3), (2, None), (None, len(real) - 2), (1, 2)):
                lo, hi = lower or 0, len(real) if upper is None else upper
                canvas, hist, g, graphs = w.plot_two_d_projection(list(axes), FILLS[fi], lower, upper)
                mc.need(same(sorted(root_points(g)), sorted((p[i], p[j]) for p in real[lo:hi])), "points of a tesselation", case, axes, lower, upper, root_points(g))
                mc.need((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()) == axes, "labels", case, axes, hist.GetXaxis().GetTitle())
                want, value = [], []
                data = {"weight": lambda k: weights[real[k]], "content": lambda k: w.tile_content_list[k], "pdf": lambda k: w.get_pdf(w.real_points[k])}.get(FILLS[fi], lambda k: 0.0)
                for k in range(lo, hi):
                    tile = tess.regions[tess.point_region[k]]
                    if -1 in tile or not tile: continue
                    want.append([(float(tess.vertices[v][i]), float(tess.vertices[v][j])) for v in tile])
                    value.append(float(data(k)))
                mc.need(len(graphs) == len(want), "tiles", case, axes, lower, upper, len(graphs), len(want))
                for q, p in zip(graphs, want):
                    got = root_points(q)
                    mc.need(got[0] == got[-1], "open tile", case, got)
                    if dim == 2: mc.need(same(got[:-1], p), "corners of a tile", case, axes, got, p)
                    else: mc.need(same(sorted(got[:-1]), sorted(p)), "corners of a tile", case, axes, got, p)
                    mc.need(self.drawn(canvas, q), "not on the canvas", case)
                colours = [q.GetFillColor() for q in graphs]
                if FILLS[fi] in (None, "none"): mc.need(set(colours) <= {0}, "tiles filled", case, colours)
                else:
                    palette = [ROOT.TColor.GetColorPalette(k) for k in range(ROOT.TColor.GetNumberOfColors())]
                    mc.need(all(c in palette for c in colours), "colour of a tile", case, colours)
                    order = [palette.index(c) for c in colours]
                    for (v, c), (x, d) in itertools.combinations(zip(value, order), 2): mc.need((v - x) * (c - d) >= 0, "colours in another order than values", case, axes, value, order)
                    alls = [float(data(k)) for k in range(lo, hi)]
                    if max(alls) > min(alls):
                        for v, c in zip(value, order): mc.near(c / (len(palette) - 1), (v - min(alls)) / (max(alls) - min(alls)), "colour of a tile", case, v, c, abs_=1.1 / (len(palette) - 1))
                common.clear_root()
                mc.S.add("transitions")
        mc.need([tuple(map(float, p)) for p in w.real_points] == real, "points changed by drawing", case)
        return "tiles:%d:%d:%d:%d" % (dim, n, bound, fi)
    def refuse(self, case):
        """What cannot be drawn is refused with ValueError"""
        w = VoronoiWeighting(["x", "px"], numpy.diag([1.0, 1.0]))
        for axes in (["x", "px"],):
            try: w.plot_two_d_projection(axes)
            except ValueError: pass
            else: mc.need(False, "tesselation drawn before it was made", case)
        b = Bunch.new_from_hits([Hit.new_from_dict({"x": 1.0 * (i % 3), "px": i * 0.7, "event_number": i, "pid": -13, "mass": 105.0}) for i in range(9)])
        w.apply_weights(b, False)
        for axes, fill in ((["x"], None), (["x", "px", "x"], None), (["x", "y"], None), (["t", "px"], None), ([], None), (["x", "px"], "colour"), (["x", "px"], "")):
            try: w.plot_two_d_projection(axes, fill)
            except ValueError: continue
            mc.need(False, "drawing not refused", case, axes, fill)
        for f in (FFTTuneFinder(), DPhiTuneFinder()):
            try: f.get_tune()
            except ValueError: continue
            mc.need(False, "tune of nothing", case)
        return "refuse"

    min_outcomes = 20

if __name__ == "__main__": mc.main(C45)
