import contextlib, gc, io, itertools, math, operator, os, pickle, shutil, sys, tempfile, types, zlib
import mc
mc.block_root()
import numpy
import matplotlib.pyplot as pyplot
import xboa.common as common
import xboa.common.config as config
import xboa.common.matplotlib_wrapper as wrapper
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.hit.factory import BuiltinHitFactory, UserHitFactory, MausJsonHitFactory
from xboa.bunch import Bunch
from xboa.bunch.weighting import BoundingEllipse, MultipoleWeighting, VoronoiWeighting
from xboa.tracking import MatrixTracking
from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
from xboa.algorithms.decoupled_transfer_matrix import DecoupledTransferMatrix
from xboa.algorithms.peak_finder import UphillDownhillPeakFinder, WindowPeakFinder
from xboa.algorithms.smoothing import CutSmoothing, GaussianSmoothing
from xboa.algorithms.tune import DPhiTuneFinder, FFTTuneFinder

STORED = sorted(Hitcore().get_variables())
def hit_image(h): return tuple((k, repr(h[k])) for k in STORED)
def canon(x):
    """What can be seen of a value, so that two can be compared"""
    if isinstance(x, Hit): return ("hit",) + hit_image(x)
    if isinstance(x, Bunch): return ("bunch", x.covariances_set(), x.means_set(), repr(x.bunch_weight())) + tuple(hit_image(h) for h in x)
    if isinstance(x, dict): return ("dict", type(x).__name__) + tuple(sorted((repr(k), canon(v)) for k, v in x.items()))
    if isinstance(x, numpy.ndarray): return ("array", type(x).__name__, x.shape, str(x.dtype), repr(x.tolist()))
    if isinstance(x, (list, tuple)): return (type(x).__name__,) + tuple(canon(v) for v in x)
    if isinstance(x, WeightContext): return ("context", x.get_default_weight(), x.get_weight(0, 1, 1), x.get_weight(0, 2, 1))
    if isinstance(x, (int, float, complex, str, bytes, type(None))): return repr(x)
    return "a " + type(x).__name__
def spoil(x, depth=0):
    """Change whatever can be changed in a result, as its new owner may"""
    if depth > 6: return
    if isinstance(x, Hit):
        for k in STORED:
            if k not in ("global_weight", "spill", "event_number", "particle_number", "eventNumber", "particleNumber", "pid", "station", "status"): x[k] = 123.5
    elif isinstance(x, Bunch):
        for h in list(x): spoil(h, depth + 1)
        if len(x): del x[0]
    elif isinstance(x, dict):
        for v in list(x.values()): spoil(v, depth + 1)
        x.clear(); x["spoilt"] = 1
    elif isinstance(x, numpy.ndarray):
        if x.dtype == object:
            for v in x.flat: spoil(v, depth + 1)
        if x.flags.writeable and x.dtype != object: x[...] = 77
    elif isinstance(x, (list, tuple)):
        for v in x: spoil(v, depth + 1)
        if isinstance(x, list): x.clear(); x.append("spoilt")

def beam(n, k=0):
    return [Hit.new_from_dict({"x": 1.5 * i - 2 + k, "y": (i * i) % 5 - 1.0, "px": 3.0 - i + i % 3, "py": (i * 3) % 7 * 1.0, "pz": 200.0 + i % 4, "z": 10.0 * k, "t": 0.25 * (i * i % 4), "pid": -13, "mass": common.pdg_pid_to_mass[13],
                               "charge": 1.0, "event_number": i + 1, "particle_number": 1, "station": i % 2, "bz": 1e-3, "local_weight": 1.0 + (i + k) % 2}, "energy") for i in range(n)]
class World(object):
    """Everything the queries are given"""
    def __init__(self):
        self.hits = beam(8)
        self.b, self.c, self.fixed = Bunch.new_from_hits(self.hits), Bunch.new_from_hits(beam(6, 1)), Bunch.new_from_hits(beam(7))
        self.c[0]["local_weight"] = 0.0
        self.b[1]["global_weight"] = 0.5
        self.fixed.set_covariance_matrix(True)
        self.given = Bunch.new_from_hits(beam(5))
        self.covs, self.covmeans = numpy.matrix(numpy.diag([1.0 + i for i in range(10)])), dict((v, 1.0) for v in ("x", "px", "y", "py", "z", "pz", "t", "energy", "ct"))
        self.given.set_covariance_matrix(True, self.covs, self.covmeans)
        self.bunches, self.bunch_dict, self.bunch_list = {2: self.b, 1: self.c}, {0: self.b}, [self.b, self.c]
        self.xpx, self.four, self.xy, self.x = ["x", "px"], ["x", "px", "y", "py"], ["x", "y"], ["x"]
        self.xx, self.radial = ["x", "x"], ["r", "x"]
        self.about, self.move, self.shift = {"x": 1.0}, {"x": 2.0, "pz": 5.0}, {"x": 3.0}
        self.rot, self.target = numpy.matrix([[0.0, 1.0], [-1.0, 0.0]]), numpy.matrix([[2.0, 0.5], [0.5, 3.0]])
        self.cov2, self.cov4 = numpy.matrix([[4.0, 1.0], [1.0, 2.0]]), numpy.matrix(numpy.diag([4.0, 2.0, 3.0, 1.0]))
        self.below, self.cuts, self.ampcut = {"x": 2.0}, {"x": 4.0, "p": 203.0}, {"amplitude x y": 1.5}
        self.sigma = {"x": 1.0}
        self.ids = ["spill", "event_number", "particle_number"]
        self.defaults = {"pid": -13, "mass": common.pdg_pid_to_mass[13], "pz": 200.0}
        self.cols, self.units, self.mm = ["x", "px", "pid", "pz"], {"x": "cm", "px": "GeV/c", "pz": "MeV/c", "pid": ""}, ["mm", "ns"]
        self.xt, self.edges, self.edges2 = ["x", "t"], [-3.0, 0.0, 2.0, 9.0], [-2.0, 1.0, 5.0]
        self.hit_dict = {"x": 1.0, "y": 2.0, "pz": 200.0, "mass": 105.0, "pid": -13, "event_number": 3}
        self.axis0 = {"x": 0.5, "y": 0.0, "px": 0.0, "py": 1.0, "x'": 0.0, "y'": 0.0}
        self.field = {"x": 0.25, "y": 0.0}
        self.values, self.weights, self.ys = [3.0, 1.0, 2.0, 1.5], [1.0, 0.0, 2.0, 1.0], [0.0, 5.0, 1.0, 2.0]
        self.signal, self.table = [1.0, 50.0, 2.0, 0.0, 3.0], [[1.0, 50.0, 2.0, 0.0], [1, 2, 3, 4]]
        self.points, self.pweights = [[0.0, 1.0], [1.0, 0.5], [2.0, -1.0], [0.3, 0.3]], [1.0, 2.0, 1.0, 0.5]
        self.keys = {"__k__": "v", "__l__": 3}
        self.args = [(1,), (2,), (3,)]
        self.mean2, self.array2 = numpy.array([0.5, 0.0]), numpy.array([[4.0, 0.0], [0.0, 9.0]])
        self.index, self.moments = [[1, 0], [0, 1]], [0.0, 0.0]
        self.matrix = [[0.0, 1.0], [-1.0, 0.0]]
        eye = numpy.matrix(numpy.eye(6)); eye[0, 1] = 0.5
        self.maps, self.offsets, self.offset = [eye, eye * eye], [numpy.matrix([[1.0] + [0.0] * 5]), numpy.matrix([[0.0] * 6])], numpy.matrix([[0.0] * 6])
        self.u = [math.cos(1.3 * i) for i in range(41)]
        self.up = [-math.sin(1.3 * i) for i in range(41)]
        self.doc = {"spill_number": 1, "maus_event_type": "Spill", "mc_events": [{"virtual_hits": [dict(
            {"station_id": 1, "track_id": 1, "time": 1.5, "mass": 105.658, "charge": 1.0, "proper_time": 0.0, "path_length": 0.0, "particle_id": -13}, **dict((k, {"x": 1.0, "y": 2.0, "z": 200.0}) for k in ("position", "momentum", "b_field", "e_field")))]}]}
        self.wc = WeightContext(); self.wc.set_weight(2.0, 0, 1, 1)
        self.contents = [[0.0, 1.0], [2.0, 4.0]]
        self.line = [[1.0, 2.0], [0.0]]
        self.zs = [[3.0, 1.0], [2.0]]
    def image(self):
        out = dict((k, canon(v)) for k, v in self.__dict__.items())
        for n in ("units", "constants", "pdg_pid_to_mass", "pdg_pid_to_charge", "pdg_pid_to_name", "icool_pid_to_pdg", "mars_pid_to_pdg", "pdg_pid_to_icool", "pdg_pid_to_mars"): out["common." + n] = canon(getattr(common, n))
        out["packages"] = canon(config.PACKAGES)
        out["names"] = canon([Hit.get_variables(), Hit.set_variables(), Hit.mass_shell_variables(), Hit.file_types(), Bunch.get_variables(), Bunch.hit_get_variables(), Bunch.get_axes()])
        out["formats"] = canon([BuiltinHitFactory.file_formats, BuiltinHitFactory.file_units, MausJsonHitFactory.file_types()])
        out["convention"] = canon(Bunch.get_geometric_momentum())
        out["weights"] = canon(Hitcore.get_weight_context())
        return out

Q = {}
def q(f): Q[f.__name__] = f; return f
def many(**kw):
    for k, f in kw.items(): Q[k] = f
def text(write):
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        p = os.path.join(d, "f")
        write(p)
        with open(p) as f: return f.read()
def changed(b, f):
    d = b.deepcopy()
    r = f(d)
    return [d, r if isinstance(r, (float, bool, type(None))) else None]
def square(x): return x * x
def own(r): return [r[0], list(r[1]), list(r[2])]  # the edges are documented as those given

many(
    mean=lambda w: w.b.mean(w.four), mean_fixed=lambda w: w.fixed.mean(w.four), mean_given=lambda w: w.given.mean(w.xpx), mean_derived=lambda w: w.b.mean(w.radial),
    moment=lambda w: w.b.moment(w.xpx), moment_about=lambda w: w.b.moment(w.xpx, w.about), moment_derived=lambda w: w.b.moment(w.radial, w.about), moment_given=lambda w: w.given.moment(w.xx, w.about), moment_fixed=lambda w: w.fixed.moment(w.xpx),
    deviation=lambda w: [w.b.standard_deviation("x"), w.b.standard_deviation(w.xpx, w.about)],
    covariance=lambda w: w.b.covariance_matrix(w.four), covariance_about=lambda w: w.b.covariance_matrix(w.four, w.about), covariance_fixed=lambda w: w.fixed.covariance_matrix(w.four), covariance_given=lambda w: w.given.covariance_matrix(w.xpx, w.about),
    weight=lambda w: [w.b.bunch_weight(), w.c.bunch_weight()],
    emittance=lambda w: w.b.get_emittance(w.xy), emittance_cov=lambda w: w.b.get_emittance(w.x, w.cov2), emittance_geo=lambda w: w.b.get_emittance(w.xy, geometric=True), emittance_fixed=lambda w: w.fixed.get_emittance(w.xy), emittance_given=lambda w: w.given.get_emittance(w.xy),
    twiss=lambda w: [w.b.get_beta(w.xy), w.b.get_alpha(w.xy), w.b.get_gamma(w.xy)], twiss_fixed=lambda w: [w.fixed.get_beta(w.x), w.fixed.get_alpha(w.x), w.given.get_beta(w.x)], twiss_geo=lambda w: [w.b.get_beta(w.x, True), w.b.get_alpha(w.x, True)],
    dispersion=lambda w: [w.b.get_dispersion("x"), w.b.get_dispersion_prime("x"), w.given.get_dispersion("y")],
    angular=lambda w: [w.b.get_kinetic_angular_momentum(), w.b.get_canonical_angular_momentum()], angular_about=lambda w: [w.b.get_kinetic_angular_momentum(w.axis0), w.b.get_canonical_angular_momentum(1e-3, w.field, w.axis0)],
    amplitude=lambda w: Bunch.get_amplitude(w.b, w.hits[2], w.xy), amplitude_cov=lambda w: Bunch.get_amplitude(w.b, w.hits[2], w.xy, w.cov4, w.about), amplitude_fixed=lambda w: Bunch.get_amplitude(w.fixed, w.fixed[1], w.x), amplitude_given=lambda w: Bunch.get_amplitude(w.given, w.given[1], w.x),
    variable=lambda w: [w.b.get_hit_variable(w.hits[1], "amplitude x"), w.b.get_hit_variable(w.hits[1], "r")], variables=lambda w: w.b.list_get_hit_variable(w.xt, w.mm), variables_amp=lambda w: w.b.list_get_hit_variable(["amplitude x y", "x'"]),
    get=lambda w: [w.b.get(n, a) for n, a in (("mean", w.x), ("moment", w.xpx), ("emittance", w.xy), ("beta", w.x), ("bunch_weight", w.x), ("dispersion", w.x), ("angular_momentum", w.x), ("standard_deviation", w.x))],
    list_get=lambda w: Bunch.list_get(w.bunches, ["mean", "emittance"], [w.x, w.xy]),
    names=lambda w: [Hit.get_variables(), Hit.set_variables(), Hit.mass_shell_variables(), Hit.file_types()], names_bunch=lambda w: [Bunch.get_variables(), Bunch.hit_get_variables(), Bunch.get_axes()],
    names_factory=lambda w: [MausJsonHitFactory.file_types(), BuiltinHitFactory.file_types()], names_core=lambda w: [Hitcore().get_variables(), Hitcore().set_variables()],
    helpers=lambda w: [Bunch.axis_list_to_covariance_list(w.xy), Bunch.convert_string_to_axis_list("x y"), Bunch.momentum_variable("x", False), Bunch.momentum_variable("ct", False)],
    set_flags=lambda w: [w.b.covariances_set(), w.fixed.covariances_set(), w.given.means_set()],
    get_hits=lambda w: len(w.b.get_hits("station", 1)), get_hits_amp=lambda w: len(w.b.get_hits("amplitude x", 1.0, operator.lt)),
    compare=lambda w: [w.b == w.c, w.b.hit_equality(w.c), w.hits[0] == w.hits[1], w.hits[0] != w.b[0], w.fixed == w.given],
    copies=lambda w: [w.b.deepcopy(), w.hits[0].deepcopy(), w.fixed.deepcopy(), w.given.deepcopy()], from_hits=lambda w: Bunch.new_from_hits(w.hits), pickles=lambda w: pickle.loads(pickle.dumps(w.hits)),
    deep_means=lambda w: w.given.deepcopy().mean(w.xpx), deep_covs=lambda w: w.given.deepcopy().covariance_matrix(w.xpx),
    as_dict=lambda w: w.hits[3].dict_from_hit(), from_dict=lambda w: Hit.new_from_dict(w.hit_dict, "energy"), represent=lambda w: [repr(w.hits[0]), str(w.b)[:200]],
    vector=lambda w: w.hits[1].get_vector(w.four, w.about), derived=lambda w: [w.hits[2][k] for k in Hit.get_variables() if k], check=lambda w: [h.check() for h in w.hits],
    hit_move=lambda w: changed(w.hits[1], lambda h: h.translate(w.move, "energy")), hit_rotate=lambda w: changed(w.hits[1], lambda h: h.abelian_transformation(w.xpx, w.rot, w.shift, w.about, "energy") and None), hit_shell=lambda w: changed(w.hits[2], lambda h: h.mass_shell_condition("pz")),
    hit_set=lambda w: changed(w.hits[2], lambda h: h.set("p", 300.0)),
    move=lambda w: changed(w.b, lambda b: b.translate(w.move, "energy") and None), rotate=lambda w: changed(w.b, lambda b: b.abelian_transformation(w.xpx, w.rot, w.shift, w.about, "energy") and None), rotate_only=lambda w: changed(w.b, lambda b: b.abelian_transformation(w.xpx, w.rot) and None),
    transform=lambda w: changed(w.b, lambda b: b.transform_to(w.xpx, w.target, w.shift, w.about, "energy") and None), period=lambda w: changed(w.b, lambda b: b.period_transformation(0.1, 0.5) and None),
    cut=lambda w: changed(w.b, lambda b: b.cut(w.below, operator.ge)), cut_two=lambda w: changed(w.b, lambda b: b.cut(w.cuts, operator.ge)), cut_sigma=lambda w: changed(w.b, lambda b: b.cut(w.sigma, operator.ge, True)), cut_amp=lambda w: changed(w.b, lambda b: b.cut(w.ampcut, operator.ge)),
    transmission=lambda w: changed(w.b, lambda b: b.transmission_cut(w.c)), transmission_ids=lambda w: changed(w.b, lambda b: b.transmission_cut(w.c, False, w.ids)), remove=lambda w: changed(w.b, lambda b: b.conditional_remove(w.cuts, operator.lt)), remove_sigma=lambda w: changed(w.b, lambda b: b.conditional_remove(w.sigma, operator.lt, True)),
    clear=lambda w: changed(w.b, lambda b: b.clear_local_weights()), fix_covs=lambda w: changed(w.b, lambda b: b.set_covariance_matrix(True)), give_covs=lambda w: changed(w.b, lambda b: b.set_covariance_matrix(True, w.covs, w.covmeans)),
    given_changed=lambda w: changed(w.given, lambda b: b.translate(w.move, "energy") and None), fixed_again=lambda w: changed(w.fixed, lambda b: b.set_covariance_matrix(False)),
    split=lambda w: dict((k, len(v)) for k, v in w.b.split("station").items()),
    histogram=lambda w: w.b.histogram("x", "mm", nx_bins=3), histogram_two=lambda w: w.b.histogram("x", "mm", "px", "MeV/c", 3, 2), histogram_var=lambda w: own(w.b.histogram_var_bins("x", w.edges)), histogram_var_two=lambda w: own(w.b.histogram_var_bins("x", w.edges, "mm", "y", w.edges2, "mm")),
    bins=lambda w: [own(common.histogram(w.values, w.edges, None, None, w.weights)), own(common.histogram(w.values, w.edges, w.ys, w.edges2))], bins_weighted=lambda w: own(common.histogram(w.values, w.edges, w.ys, w.edges2, w.weights)),
    edges=lambda w: [common.get_bin_edges(w.values, 3), common.get_bin_edges(w.values, 2, 0.0, 9.0), common.n_bins(100, None, None, None, 2), common.min_max(w.values, w.weights, 0.2), common.min_max(w.values)],
    shell=lambda w: Bunch.new_hit_shell(3, w.cov2, w.xpx, "energy", w.defaults), shell_four=lambda w: Bunch.new_hit_shell(2, w.cov4, w.four, "energy", w.defaults),
    ellipses=lambda w: [Bunch.build_ellipse_2d(400.0, 0.5, 6.0, 200.0, 105.0, False), Bunch.build_penn_ellipse(6.0, 105.0, 400.0, 0.0, 200.0, 0.0, 0.004, 1)],
    grid=lambda w: [common.make_grid(2, 3), common.make_shell(2, w.cov2), common.make_shell(2, w.cov2, w.mean2), common.normalise_vector(numpy.matrix([[1.0, 2.0]]), w.cov2)],
    fit=lambda w: common.fit_ellipse(w.points, 1e3, verbose=False), fit_weights=lambda w: common.fit_ellipse(w.points, 2.0, w.pweights, 5, False),
    substitute=lambda w: text(lambda p: (open(p + "0", "w").write("a __k__ __l__\n"), common.substitute(p + "0", p, w.keys))),
    user_write=lambda w: text(lambda p: w.b.hit_write_user(w.cols, w.units, open(p, "w"))), user_write_sorted=lambda w: text(lambda p: w.b.hit_write_user(w.cols, w.units, open(p, "w"), "@ ", lambda a, b: int(b["x"] > a["x"]) - int(b["x"] < a["x"]))),
    user_read=lambda w: Bunch.new_from_read_user(w.cols, w.units, io.StringIO("1 2 -13 200\n3 4 -13 201\n"), 0), user_hit=lambda w: UserHitFactory(w.cols, w.units, io.StringIO("1 2 -13 200\n"), "energy").make_hit(),
    json_read=lambda w: list(MausJsonHitFactory(io.StringIO(__import__("json").dumps(w.doc)), "maus_json_virtual_hit").hit_generator()), json_object=lambda w: MausJsonHitFactory.hit_from_maus_object("virtual_hit", w.doc["mc_events"][0]["virtual_hits"][0], 3),
    maus_tree=lambda w: Hit.get_maus_tree(w.hits, "maus_json_virtual_hit"), maus_dict=lambda w: w.hits[0].get_maus_dict("maus_json_virtual_hit"), header=lambda w: [Hit.file_header(f, "a comment") for f in ("icool_for009", "g4beamline_bl_track_file")],
    window=lambda w: WindowPeakFinder(3, 0, 1).find_peaks(w.signal), slope=lambda w: UphillDownhillPeakFinder().find_peaks(w.signal),
    gauss=lambda w: [float(v) for v in GaussianSmoothing(1.0, 2, True).smooth(w.signal)], cut_smooth=lambda w: CutSmoothing(30.0, 4).smooth(w.signal), cut_table=lambda w: CutSmoothing(30.0, 4).smooth_table(w.table, 0),
    decouple=lambda w: (lambda d: [d.get_v_m(w.x and [2.0]), d.get_phase_advance(0), float(d.get_beta(0)), d.m, d.r, d.t])(DecoupledTransferMatrix(w.matrix)),
    fft=lambda w: FFTTuneFinder(w.u, w.up).get_tune(), multipole_set=lambda w: (lambda m: m.set_target_moments(w.index, w.moments))(MultipoleWeighting(2, w.xy, w.array2, w.mean2)),
    multipole=lambda w: changed(w.b, lambda b: MultipoleWeighting(2, w.xy, w.array2, w.mean2).apply_weights(b, False) and None), multipole_moments=lambda w: changed(w.b, lambda b: (lambda m: (m.set_target_moments(w.index, w.moments), m.apply_weights(b, False)))(MultipoleWeighting(1, w.xy, w.array2, w.mean2)) and None),
    voronoi=lambda w: changed(w.b, lambda b: VoronoiWeighting(w.xy, w.array2, w.mean2).apply_weights(b, False)), voronoi_bound=lambda w: changed(w.b, lambda b: VoronoiWeighting(w.xy, w.array2, w.mean2, BoundingEllipse(w.array2, w.mean2, 5)).apply_weights(b, False)),
    bound=lambda w: [BoundingEllipse(w.array2, w.mean2, 4).bounding_points, BoundingEllipse(w.array2, w.mean2, 4).cut_on_bound(w.array2)],
    pdf=lambda w: VoronoiWeighting(w.xy, w.array2, w.mean2).get_pdf(w.mean2),
    track=lambda w: MatrixTracking(w.maps, w.offsets, w.offset).track_many(w.hits), track_one=lambda w: MatrixTracking(w.maps, w.offsets, w.offset).track_one(w.hits[0]),
    orbit=lambda w: [[i.centre, i.ellipse] for i in EllipseClosedOrbitFinder(MatrixTracking([numpy.matrix([[math.cos(1.2), math.sin(1.2)] + [0] * 4, [-math.sin(1.2), math.cos(1.2)] + [0] * 4] + [[float(a == c) for a in range(6)] for c in range(2, 6)])] * 1, [w.offset], w.offset), w.hits[0]).find_closed_orbit_generator(w.xpx, 4, max_iterations=2)],
    contexts=lambda w: [w.wc + w.wc, w.wc * 2.0, w.wc - w.wc, w.wc / w.wc, ~w.wc if hasattr(w.wc, "__invert__") else 0],
    process=lambda w: common.process_list(square, w.args, 2),
    tables=lambda w: [dict(common.units), dict(common.constants)],
)
for fmt in ("icool_for009", "icool_for003", "g4beamline_bl_track_file", "mars_1", "maus_json_virtual_hit", "maus_json_primary"):
    Q["write_" + fmt] = lambda w, fmt=fmt: text(lambda p: w.b.hit_write_builtin(fmt, p, "a comment"))
    if fmt != "maus_json_primary": Q["write_all_" + fmt] = lambda w, fmt=fmt: text(lambda p: Bunch.hit_write_builtin_from_dict(w.bunches, fmt, p))
    Q["write_hits_" + fmt] = lambda w, fmt=fmt: text(lambda p: Hit.write_list_builtin_formatted(w.hits, fmt, p))
    @q
    def read(w, fmt=fmt):
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
            p = os.path.join(d, "f")
            w.b.hit_write_builtin(fmt, p)
            return [Bunch.new_from_read_builtin(fmt, p), len(Bunch.new_list_from_read_builtin(fmt, p)), sorted(Bunch.new_dict_from_read_builtin(fmt, p))]
    Q["read_" + fmt] = Q.pop("read")
def figure(f):
    f()
    out = []
    for n in pyplot.get_fignums():
        for ax in pyplot.figure(n).axes: out.append([ax.get_xlabel(), [l.get_xydata().tolist() for l in ax.lines], [c.get_offsets().tolist() for c in ax.collections], len(ax.patches)])
    pyplot.close("all")
    return out
many(
    plot_graph=lambda w: figure(lambda: common.make_matplot_graph(w.values, "x", w.ys, "y")), plot_histogram=lambda w: figure(lambda: common.make_matplot_histogram(w.values, "x", 3, weight_list=w.weights)), plot_scatter=lambda w: figure(lambda: common.make_matplot_scatter(w.values, "x", w.ys, "y")),
    plot_multi=lambda w: figure(lambda: common.make_matplot_multigraph(w.line, "x", w.zs, "y")), plot_wrapped=lambda w: figure(lambda: wrapper.make_graph(w.values, "x", w.ys, "y")), plot_wrapped_histogram=lambda w: figure(lambda: wrapper.make_histogram(w.values, "x", 3, weight_list=w.weights)),
    plot_bunch=lambda w: figure(lambda: w.b.matplot_histogram("x", "mm")), plot_bunch_scatter=lambda w: figure(lambda: w.b.matplot_scatter_graph("x", "px", "mm", "MeV/c")), plot_bunches=lambda w: figure(lambda: Bunch.matplot_graph(w.bunch_list, "mean", w.x, "emittance", w.xy, "mm", "mm")), plot_bunch_dict=lambda w: figure(lambda: Bunch.matplot_graph(w.bunches, "mean", w.x, "emittance", w.xy)),
)
NAMES = sorted(Q)

def apart(f):
    """Runs f in a process of its own and returns what it returned"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                try: out = ("ok", f())
                except BaseException as e: out = ("raised", "%s: %s" % (type(e).__name__, str(e)[:200]))
            with os.fdopen(wr, "wb") as g: pickle.dump(out, g)
            code = 0
        finally: os._exit(code)
    os.close(wr)
    with os.fdopen(r, "rb") as g: data = g.read()
    os.waitpid(pid, 0)
    mc.need(data, "the process ended early")
    how, value = pickle.loads(data)
    return how, value

class C47(mc.Check):
    pid = "C47"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of ordered pairs of some 140 calls of the whole interface, in processes of their own, on shared arguments, with each result spoilt by its owner, against what each call returns alone"
    rule = ("each of some 140 calls (statistics, optics, transformations of copies, cuts, files, histograms, plots, weightings, tracking, orbits, tunes, peaks, smoothing, lists of names), twice and then followed by each other call (thorough: by each ordered pair of 24 of them); "
            "before each next call everything in the last result that can be changed is changed; all arguments, bunches, hits, tables and lists of names are compared with what they were after every call")
    assumptions = ["hits of a bunch, and its list of them, are the bunch's own", "calls that are documented to change their argument are made on copies"]
    case_timeout = 300
    DEEP = ["mean", "moment_about", "covariance_given", "emittance", "twiss_geo", "amplitude_cov", "variables_amp", "names", "names_bunch", "get", "hit_rotate", "transform", "cut_sigma", "cut_amp", "transmission", "shell", "histogram_var_two", "user_read", "read_icool_for009", "maus_tree",
            "multipole", "voronoi_bound", "track", "fit_weights"]
    def cases(self):
        for name in NAMES: yield [name]
        if self.thorough:
            for a in NAMES:
                for b in self.DEEP: yield [a, b]
    def setup(self):
        if not hasattr(self, "world"):
            self.world = World()
            self.before = self.world.image()
            self.alone = {}
    def reference(self, name):
        if name not in self.alone: self.alone[name] = apart(lambda: canon(Q[name](self.world)))
        return self.alone[name]
    def follow(self, names):
        """In a process of its own: the calls in turn; returns the first thing that is wrong"""
        for i, name in enumerate(names):
            try: r = Q[name](self.world)
            except Exception as e:
                if self.alone[name][0] != "raised": return (i, "raises after the others", "%s: %s" % (type(e).__name__, str(e)[:200]), None)
                r = None
            else:
                if canon(r) != self.alone[name][1]: return (i, "answer depends on earlier calls", str(canon(r))[:300], str(self.alone[name][1])[:300])
            now = self.world.image()
            for k in now:
                if now[k] != self.before[k]: return (i, "the call changed what it was given", k, str(now[k])[:300], str(self.before[k])[:300])
            spoil(r)
            del r
            now = self.world.image()
            for k in now:
                if now[k] != self.before[k]: return (i, "the result is not the caller's own", k, str(now[k])[:300], str(self.before[k])[:300])
        return None
    def run_case(self, case):
        self.setup()
        ref = self.reference(case[0])
        mc.need(ref[0] == "ok", "call fails", case, ref)
        for nxt in ([case[0]] + [n for n in NAMES if n != case[0]] if len(case) == 1 else self.DEEP):
            seq = case + [nxt]
            for n in seq: self.reference(n)
            how, out = apart(lambda: self.follow(seq))
            mc.S.add("transitions", len(seq))
            mc.need(how == "ok", "harness", seq, out)
            mc.need(out is None, out[1] if out else "", "calls", seq, "at call", out and seq[out[0]], *(out[2:] if out else ()))
        return "same %d" % (zlib.crc32(str(ref[1]).encode()) % 1000)

if __name__ == "__main__": mc.main(C47)
