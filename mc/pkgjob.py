"""Run by C46 in an interpreter of its own: imports every part of xboa with some packages missing,
then uses every feature and writes down what came out.
argv[1] = json [missing packages, module imported first, features backwards (null: none)]; argv[2] = where to write"""
import sys, os, json, warnings, importlib, operator, math
MODS = ["xboa", "xboa.common", "xboa.common.config", "xboa.core", "xboa.hit", "xboa.hit.factory", "xboa.bunch", "xboa.bunch.weighting", "xboa.tracking", "xboa.tracking.tracking_process",
        "xboa.algorithms", "xboa.algorithms.tune", "xboa.algorithms.peak_finder", "xboa.algorithms.smoothing", "xboa.algorithms.closed_orbit", "xboa.algorithms.decoupled_transfer_matrix",
        "xboa.common.matplotlib_wrapper"]
F = {}
def feature(*needs):
    def add(f): F[f.__name__] = (needs, f); return f
    return add
def hits():
    from xboa.hit import Hit
    return [Hit.new_from_dict({"x": 1.5 * i - 2, "y": (i * i) % 5 - 1.0, "px": 3.0 - i + i % 3, "py": (i * 3) % 7 * 1.0, "pz": 200.0 + i, "z": 10.0, "t": 0.25 * (i * i % 4), "pid": -13, "mass": 105.658, "charge": 1.0,
                               "event_number": i + 1, "particle_number": 1, "station": i % 2, "local_weight": 1.0 + i % 2}, "energy") for i in range(6)]
def beam():
    from xboa.bunch import Bunch
    return Bunch.new_from_hits(hits())
def table(b): return [[h[v] for v in ("x", "px", "y", "py", "z", "pz", "t", "energy", "pid", "weight", "station", "event_number")] for h in b]
def lst(m): return [[float(x) for x in row] for row in m.tolist()]
def work(x): return x * x
def ring(n, nu=0.2): return [math.cos(2 * math.pi * nu * i) for i in range(n)], [-math.sin(2 * math.pi * nu * i) for i in range(n)]
def batch():
    import ROOT
    ROOT.gROOT.SetBatch(True); ROOT.gErrorIgnoreLevel = 6000

# ---- hits, bunches, files: plain Python
@feature()
def hit_derived():
    h = hits()[2]
    h["p"] = 250.0; h["y"] = 3.0
    return [h[k] for k in ("x", "y", "r", "phi", "p", "pt", "x'", "y'", "ct", "kinetic_energy", "l_kin", "px", "energy")]
@feature()
def hit_use():
    h = hits()[1]; c = h.deepcopy(); c["x"] = 7.0
    h.translate({"x": 1.0, "pz": 2.0}, "energy")
    return [h["x"], c["x"], h["energy"], h == c, h != c, h.dict_from_hit()["pz"], h.check()]
def file_feature(name):
    def f():
        from xboa.bunch import Bunch
        path = "f_" + name
        try:
            beam().hit_write_builtin(name, path)
            return table(Bunch.new_from_read_builtin(name, path))
        finally:
            if os.path.exists(path): os.remove(path)
    f.__name__ = "file_" + name
    feature()(f)
for n in ("icool_for009", "icool_for003", "g4beamline_bl_track_file", "mars_1"): file_feature(n)
@feature()
def dict_of_files():
    from xboa.bunch import Bunch
    b = beam()
    Bunch.hit_write_builtin_from_dict({0: b, 1: b}, "icool_for009", "d_file")
    try: return [len(x) for x in Bunch.new_list_from_read_builtin("icool_for009", "d_file")]
    finally: os.remove("d_file")
@feature()
def user_file():
    from xboa.bunch import Bunch
    u = {"x": "cm", "px": "GeV/c", "pz": "MeV/c", "pid": ""}
    try:
        with open("u_file", "w") as g: beam().hit_write_user(["x", "px", "pid", "pz"], u, g)
        with open("u_file") as g: return table(Bunch.new_from_read_user(["x", "px", "pid", "pz"], u, g, 0))
    finally: os.remove("u_file")
@feature()
def json_file():
    from xboa.bunch import Bunch
    import json as j
    vec = lambda a, b, c: {"x": a, "y": b, "z": c}
    doc = {"spill_number": 1, "maus_event_type": "Spill", "mc_events": [{"virtual_hits": [{"station_id": 1, "track_id": 1, "time": 1.5, "mass": 105.658, "charge": 1.0, "proper_time": 0.0, "path_length": 0.0, "particle_id": -13,
           "position": vec(1.0, 2.0, 3.0), "momentum": vec(4.0, 5.0, 200.0), "b_field": vec(0.0, 0.0, 1.0), "e_field": vec(0.0, 0.0, 0.0)}]}]}
    with open("j_file", "w") as g: g.write(j.dumps(doc) + "\n")
    try: return table(Bunch.new_from_read_builtin("maus_json_virtual_hit", "j_file"))
    finally: os.remove("j_file")
@feature()
def moments():
    b = beam(); return [b.mean(["x", "pz"]), b.moment(["x", "px"]), b.moment(["x", "x", "y", "y"], {"x": 0.0}), b.bunch_weight(), b.get("mean", ["p"]), b.get("moment", ["x", "y"])]
@feature()
def cuts():
    from xboa.bunch import Bunch
    r = []
    try:
        b = beam(); b.cut({"x": 2.0}, operator.ge); b.cut({"p": 203.0}, operator.lt, global_cut=True)
        c = beam(); c.transmission_cut(b, True)
        r += table(b) + table(c); b.clear_weights(); r += table(b)
    finally: Bunch.clear_global_weights()
    return r
@feature()
def splitting():
    from xboa.bunch import Bunch
    b = beam()
    return [sorted(h["event_number"] for h in b.get_hits("station", 1)), len(Bunch.new_from_hits(b.hits()[:2])), b.list_get_hit_variable(["x", "t"], ["cm", "s"])]
@feature()
def bunch_editing():
    b = beam(); c = b.deepcopy(); del c[0]; c.append(b[0])
    return table(c) + table(b)
@feature()
def movement():
    b = beam(); b.translate({"x": 2.0, "pz": 5.0}, "energy"); b.period_transformation(0.1, 0.5)
    return table(b)
@feature()
def hit_equality():
    a, b = beam(), beam()
    r = [a.hit_equality(b)]; b[0]["x"] = 55.0; return r + [a.hit_equality(b)]
@feature()
def bunch_equality():
    a, b = beam(), beam()
    r = [a == b]; b[0]["x"] = 55.0; return r + [a == b, a != b]
@feature()
def tables():
    from xboa import common
    return [common.units["cm"], common.constants["c_light"], common.pdg_pid_to_mass[13], sorted(common.pdg_pid_to_name)[:5]]
@feature()
def templates():
    from xboa import common
    try:
        with open("t_file", "w") as g: g.write("a __k__ b\n")
        common.substitute("t_file", "s_file", {"__k__": "v"})
        with open("s_file") as g: return g.read()
    finally:
        for n in ("t_file", "s_file"):
            if os.path.exists(n): os.remove(n)
@feature()
def list_helpers():
    from xboa import common
    return [list(common.get_bin_edges([1.0, 2.0, 4.0], 3)), common.n_bins(100), common.min_max([1.0, 5.0], margin=0.1), common.multisort([[3, 1, 2], [4, 5, 6]])]
@feature()
def window_peaks():
    from xboa.algorithms.peak_finder import WindowPeakFinder
    return [WindowPeakFinder(3, 0, 1).find_peaks([0., 1., 0., 2., 0., 3., 1., 0., 0.])]
@feature()
def slope_peaks():
    from xboa.algorithms.peak_finder import UphillDownhillPeakFinder
    return UphillDownhillPeakFinder().find_peaks([0., 1., 0., 2., 0.])
@feature()
def smooth_gauss():
    from xboa.algorithms.smoothing import GaussianSmoothing
    return [float(x) for x in GaussianSmoothing(1.0, 2, True).smooth([1.0, 5.0, 2.0, 0.0])]
@feature()
def own_tracking():
    from xboa.tracking import TrackingBase
    class T(TrackingBase):
        def track_one(self, hit): return [hit.deepcopy(), hit.deepcopy()]
    return [[h["x"] for h in t] for t in T().track_many(hits())]
@feature()
def job():
    from xboa import common
    h = common.subprocess(work, (3,))
    if isinstance(h, int): return os.waitpid(h, 0)[1] == 0
    h.join(20); return h.exitcode == 0
def missing_check(key, name):
    def f():
        from xboa.common import config
        return [getattr(config, "has_" + key)(), config.PACKAGES[{"matplotlib": "matplot"}.get(key, key)]]
    f.__name__ = "has_" + key
    feature(*(name if isinstance(name, tuple) else (name,)))(f)
missing_check("numpy", "numpy"); missing_check("root", "ROOT"); missing_check("scipy", ("scipy", "numpy")); missing_check("multiprocessing", "multiprocessing")
missing_check("matplotlib", ("matplotlib", "numpy")); missing_check("matplot", ("matplotlib", "numpy")); missing_check("json", ())

# ---- numpy
@feature("numpy")
def histograms():
    r = beam().histogram_var_bins("x", [-3.0, 0.0, 2.0, 9.0])
    from xboa import common
    a, xb, yb = common.histogram([1.0, 2.0, 2.5], [0.0, 2.0, 3.0], [0.0, 1.0, 0.0], [-1.0, 0.5, 2.0])
    return [lst(r[0]), list(r[1]), lst(a), xb, yb]
@feature("numpy")
def covariances():
    b = beam(); return [lst(b.covariance_matrix(["x", "px", "y", "py"])), b.get_emittance(["x", "y"]), b.get_beta(["x"]), b.get_alpha(["y"]), b.get_amplitude(b, b[1], ["x"]), b.get_dispersion("x"), b.get_canonical_angular_momentum()]
@feature("numpy")
def amplitude_cut():
    b = beam(); b.cut({"amplitude x": 0.5}, operator.ge); return table(b)
@feature("numpy")
def set_covariances():
    b = beam(); b.set_covariance_matrix(True); return [b.get_emittance(["x"]), b.covariances_set()]
@feature("numpy")
def transform():
    import numpy
    b = beam(); b.transform_to(["x", "px"], numpy.matrix([[2.0, 0.5], [0.5, 3.0]]), mass_shell_variable="energy"); return [b.get_emittance(["x"]), b.moment(["x", "x"])]
@feature("numpy")
def rotate():
    import numpy
    b = beam(); b.abelian_transformation(["x", "px"], numpy.matrix([[0.0, 1.0], [-1.0, 0.0]]), {}, {}, "energy"); return table(b)
@feature("numpy")
def shells():
    from xboa.bunch import Bunch
    import numpy
    return [table(Bunch.new_hit_shell(3, numpy.matrix([[1.0, 0.2], [0.2, 2.0]]), ["x", "px"], "energy", {"pid": -13, "mass": 105.0, "pz": 200.0})), lst(Bunch.build_ellipse_2d(400.0, 0.5, 6.0, 200.0, 105.0, False)),
            lst(Bunch.build_penn_ellipse(6.0, 105.0, 400.0, 0.0, 200.0, 0.0, 0.004, 1))]
@feature("numpy")
def grid():
    from xboa import common
    import numpy
    return [lst(v) for v in common.make_grid(2, 3)] + [lst(v) for v in common.make_shell(2, numpy.matrix([[1.0, 0.0], [0.0, 4.0]]))]
@feature("numpy")
def fit_ellipse():
    from xboa import common
    m, c = common.fit_ellipse([[0.0, 1.0], [1.0, 0.5], [2.0, -1.0], [0.3, 0.3]], 1e3, verbose=False); return [list(map(float, m)), c.tolist()]
@feature("numpy")
def smooth_cut():
    from xboa.algorithms.smoothing import CutSmoothing
    return CutSmoothing(30.0, 4).smooth([1.0, 50.0, 2.0, 0.0])
@feature("numpy")
def dphi():
    from xboa.algorithms.tune import DPhiTuneFinder
    f = DPhiTuneFinder(); f.u, f.up = ring(40)
    return round(float(f.get_tune()), 6)
@feature("numpy")
def fft():
    from xboa.algorithms.tune import FFTTuneFinder
    f = FFTTuneFinder(); f.u = ring(200)[0]
    return round(float(f.get_tune()), 4)
@feature("numpy")
def matrix_tracking():
    from xboa.tracking import MatrixTracking
    import numpy
    ms = [numpy.matrix([[1.0 * k if i == j else 0.0 for i in range(6)] for j in range(6)]) for k in (1, 2)]
    o = numpy.matrix([[0.0] * 6])
    return [[[h["x"], h["pz"]] for h in t] for t in MatrixTracking(ms, [o, o], o).track_many(hits())]
@feature("numpy")
def closed_orbit():
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    from xboa.tracking import MatrixTracking
    import numpy
    c, s = math.cos(1.2), math.sin(1.2)
    m = numpy.matrix([[1.0 if i == j else 0.0 for i in range(6)] for j in range(6)]); m[0, 0] = m[1, 1] = c; m[0, 1], m[1, 0] = s, -s
    o = numpy.matrix([[2.0, 1.0, 0.0, 0.0, 0.0, 0.0]])
    seed = hits()[0]
    finder = EllipseClosedOrbitFinder(MatrixTracking([m, m * m, m * m * m], [o] * 3, o), seed)
    out = list(finder.find_closed_orbit_generator(["x", "px"], 1, max_iterations=2))
    return [round(float(x), 6) for x in out[-1].centre]
@feature("numpy")
def decoupled():
    from xboa.algorithms.decoupled_transfer_matrix import DecoupledTransferMatrix
    d = DecoupledTransferMatrix([[0.0, 1.0], [-1.0, 0.0]]); return [abs(d.get_phase_advance(0)), float(d.get_beta(0))]
@feature("numpy")
def multipole():
    from xboa.bunch.weighting import MultipoleWeighting
    import numpy
    b = beam(); MultipoleWeighting(2, ["x"], numpy.array([[1.0]]), numpy.array([0.0])).apply_weights(b, False); return [round(h["weight"], 9) for h in b]
@feature("numpy")
def bounds():
    from xboa.bunch.weighting import BoundingEllipse
    import numpy
    e = BoundingEllipse(numpy.array([[1.0, 0.0], [0.0, 1.0]]), numpy.array([0.0, 0.0]), 4)
    return [e.bounding_points.tolist(), list(map(int, e.cut_on_bound(numpy.array([[0.0, 0.5], [3.0, 0.0]]))[1]))]
@feature("numpy", "scipy", "multiprocessing")
def voronoi():
    from xboa.bunch.weighting import VoronoiWeighting
    import numpy
    b = beam(); VoronoiWeighting(["x", "y"], numpy.array([[1.0, 0.0], [0.0, 1.0]])).apply_weights(b, False); return [round(h["weight"], 9) for h in b]
@feature("multiprocessing")
def many():
    from xboa import common
    return common.process_list(work, [(1,), (2,), (3,)], 2)

# ---- ROOT
@feature("ROOT", "numpy")
def refined_peaks():
    batch()
    from xboa.algorithms.peak_finder import RefinePeakFinder
    return [round(p["x"], 3) for p in RefinePeakFinder([4], 2, 4, False).find_peak_errors([-(i - 4.25) ** 2 for i in range(9)])]
@feature("ROOT", "numpy")
def smooth_fit():
    from xboa.algorithms.smoothing import FitSmoothing
    fit = None
    if "ROOT" not in MISSING:
        import ROOT
        fit = ROOT.TF1("f", "[0]+[1]*x", 0, 4)
    return [round(x, 2) for x in FitSmoothing(fit).smooth([1.0, 2.0, 2.9, 4.1])]
@feature("ROOT", "numpy")
def root_graph():
    from xboa import common
    h, g = common.make_root_graph("g", [1.0, 2.0], "x", [3.0, 1.0], "y"); return [g.GetN(), g.GetPointX(0)]
@feature("ROOT", "numpy")
def root_histogram():
    from xboa import common
    k = common.make_root_histogram("h", [1.0, 2.0, 2.5], "x", 4); return [k.GetNbinsX(), k.GetEntries()]
@feature("ROOT", "numpy")
def root_multigraph():
    from xboa import common
    h, gs = common.make_root_multigraph("m", [[1.0, 2.0], [0.0]], "x", [[3.0, 1.0], [2.0]], "y"); return [g.GetN() for g in gs]
@feature("ROOT", "numpy")
def root_canvas():
    from xboa import common
    return common.make_root_canvas("c").GetName()[:1]
@feature("ROOT", "numpy")
def root_legend():
    from xboa import common
    c = g = None
    if "ROOT" not in MISSING:
        c = common.make_root_canvas("l"); g = common.make_root_graph("g2", [1.0, 2.0], "x", [3.0, 1.0], "y")[1]
    return common.make_root_legend(c, [g]).GetNRows()
@feature("ROOT", "numpy")
def root_ellipse():
    from xboa import common
    m = c = None
    if "numpy" not in MISSING:
        import numpy
        m, c = numpy.array([0.0, 0.0]), numpy.array([[1.0, 0.0], [0.0, 1.0]])
    return common.make_root_ellipse_function(m, c, [1.0], -3, 3, -3, 3).GetNpx()
@feature("ROOT", "numpy")
def root_scatter():
    c, h, g = beam().root_scatter_graph("x", "px", "mm", "MeV/c"); return g.GetN()
@feature("ROOT", "numpy")
def root_bunch_histogram():
    c, h = beam().root_histogram("x", "mm"); return h.GetEntries()
@feature("ROOT", "numpy")
def root_bunch_graph():
    from xboa.bunch import Bunch
    return Bunch.root_graph([beam(), beam()], "mean", ["x"], "mean", ["y"], "mm", "mm")[2].GetN()
@feature("ROOT", "libMausCpp")
def maus_root_file():
    from xboa.bunch import Bunch
    return len(Bunch.read_maus_root_file("no_such_file.root"))
@feature("libMausCpp")
def maus_tracking():
    from xboa.tracking import MAUSTracking
    return len(MAUSTracking({}).track_many(hits()))
@feature("libMausCpp")
def has_maus():
    from xboa.common import config
    return config.has_maus()

# ---- matplotlib
@feature("matplotlib", "numpy")
def matplot_plots():
    from xboa import common
    common.make_matplot_graph([1.0, 2.0], "x", [3.0, 1.0], "y"); common.make_matplot_scatter([1.0, 2.0], "x", [3.0, 1.0], "y"); common.make_matplot_histogram([1.0, 2.0], "x", 3)
    return "done"
for _n, _a in (("graph", ([1.0, 2.0], "x", [3.0, 1.0], "y")), ("scatter", ([1.0, 2.0], "x", [3.0, 1.0], "y")), ("histogram", ([1.0, 2.0], "x", 3)), ("multigraph", ([[1.0, 2.0]], "x", [[3.0, 1.0]], "y"))):
    def _f(n=_n, a=_a):
        from xboa import common
        getattr(common, "make_matplot_" + n)(*a); return "done"
    _f.__name__ = "matplot_" + _n
    feature("matplotlib", "numpy")(_f)
@feature("matplotlib", "numpy")
def matplot_scatter_graph(): beam().matplot_scatter_graph("x", "px", "mm", "MeV/c"); return "done"
@feature("matplotlib", "numpy")
def matplot_bunch_histogram(): beam().matplot_histogram("x", "mm"); return "done"
@feature("matplotlib", "numpy")
def matplot_bunch_graph():
    from xboa.bunch import Bunch
    Bunch.matplot_graph([beam(), beam()], "mean", ["x"], "mean", ["y"], "mm", "mm"); return "done"
@feature("matplotlib", "numpy")
def wrapper_graph():
    import xboa.common.matplotlib_wrapper as w
    w.make_graph([1.0, 2.0], "x", [3.0, 1.0], "y"); return "done"

def main():
    out = {"import": {}, "features": {}}
    for m in [FIRST] + MODS:
        try: importlib.import_module(m)
        except BaseException as e: out["import"][m] = "%s: %s" % (type(e).__name__, e)
    if "ROOT" not in MISSING: batch()
    for name in ([] if BACK is None else list(F)[::-1] if BACK else list(F)):
        needs, f = F[name]
        try: out["features"][name] = [list(needs), "ok", f()]
        except ImportError as e: out["features"][name] = [list(needs), "ImportError", str(e)[:160]]
        except BaseException as e: out["features"][name] = [list(needs), type(e).__name__, str(e)[:160]]
    sys.stdout.flush(); sys.stderr.flush()
    with open(sys.argv[2], "w") as g: json.dump(out, g, default=str)
    os._exit(0)

if __name__ == "__main__":
    MISSING, FIRST, BACK = json.loads(sys.argv[1])
    for n in MISSING: sys.modules[n] = None
    os.environ["MPLBACKEND"] = "Agg"
    warnings.simplefilter("ignore")
    main()
