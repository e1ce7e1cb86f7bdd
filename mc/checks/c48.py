import io, itertools, math, operator
import mc
mc.block_root()
import numpy
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch
import xboa.common

C = 299.792458
MASS = dict((p, xboa.common.pdg_pid_to_mass[abs(p)]) for p in (-13, 13, 2212, 11, 211))
CHARGE = {-13: 1.0, 13: -1.0, 2212: 1.0, 11: -1.0, 211: 1.0}
FLOATS = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz", "path_length", "proper_time", "e_dep",
          "charge", "mass", "local_weight", "global_weight"]
INTS = ["spill", "event_number", "particle_number", "station", "status", "pid"]
OLD = {"eventNumber": "event_number", "particleNumber": "particle_number"}
FORM = {
    "p": lambda d: math.sqrt(d["px"]**2 + d["py"]**2 + d["pz"]**2), "r": lambda d: math.hypot(d["x"], d["y"]),
    "phi": lambda d: math.atan2(d["y"], d["x"]), "pt": lambda d: math.hypot(d["px"], d["py"]), "pphi": lambda d: math.atan2(d["py"], d["px"]),
    "x'": lambda d: d["px"]/d["pz"], "y'": lambda d: d["py"]/d["pz"], "t'": lambda d: -d["energy"]/d["pz"], "ct'": lambda d: -d["energy"]/d["pz"],
    "r'": lambda d: math.hypot(d["px"], d["py"])/d["pz"], "spin": lambda d: math.sqrt(d["sx"]**2 + d["sy"]**2 + d["sz"]**2),
    "weight": lambda d: d["local_weight"]*d["global_weight"], "ct": lambda d: C*d["t"], "r_squared": lambda d: d["x"]**2 + d["y"]**2, "z'": lambda d: 1.0,
    "kinetic_energy": lambda d: d["energy"] - d["mass"], "l_kin": lambda d: d["x"]*d["py"] - d["y"]*d["px"]}
GET = FLOATS + INTS + sorted(FORM)
SETDERIVED = ["p", "x'", "y'", "t'", "ct", "kinetic_energy"]
SET = FLOATS + INTS + list(OLD) + SETDERIVED
AMPL = ["amplitude x", "amplitude y", "amplitude x y", "amplitude ct", "amplitude x y ct"]
SHELL = ["", "p", "px", "py", "pz", "energy"]
AXES = ["x", "y", "z", "t", "ct"]
UNIT = {}
for v in ("x", "y", "z", "path_length", "r", "ct"): UNIT[v] = [("mm", 1.0), ("m", 1e3), ("cm", 10.0)]
for v in ("t", "proper_time"): UNIT[v] = [("ns", 1.0), ("s", 1e9)]
for v in ("px", "py", "pz", "p", "pt"): UNIT[v] = [("MeV/c", 1.0), ("GeV/c", 1e3)]
for v in ("energy", "kinetic_energy", "e_dep"): UNIT[v] = [("MeV", 1.0), ("GeV", 1e3), ("eV", 1e-6)]
for v in ("bx", "by", "bz"): UNIT[v] = [("T", 1e-3), ("kT", 1.0)]
WRONG = ["X", "px ", " x", "xx", "x''", "amplitude", "momentum", "Energy", "e", "hitcore", "get", "__class__", "\u03c6", 3, None, 1.5, ("x",)]

def state(k, kind):
    d = dict((v, 0.0) for v in FLOATS)
    pid = [-13, 13, 2212, 11, 211][k % 5 if kind % 2 else 0]
    d.update(x=1.5*k - 2, y=(k*k) % 5 - 1.0, z=10.0*(k % 3), px=3.0 - k + k % 3, py=(k*3) % 7 - 2.0, pz=(200.0 + k % 4)*(-1 if kind == 3 and k % 2 else 1), t=0.25*(k*k % 4) - k,
             bx=1e-4*k, by=2e-4*(k % 3), bz=1e-3 + 1e-4*k, ex=0.1*k, ey=-0.2*k, ez=0.3*(k % 2), sx=0.5*k, sy=1.0 - k, sz=0.25, path_length=2.0*k + 1, proper_time=3.0*k, e_dep=0.125*k,
             charge=CHARGE[pid], mass=MASS[pid], local_weight=[1.0, 2.0, 0.5, 0.0][(k + kind) % 4] or (1.0 if kind < 2 else 0.0), global_weight=1.0 if kind == 0 else [1.0, 0.5, 3.0][k % 3],
             spill=k % 2 + kind, event_number=k + 1, particle_number=k % 3, station=k % 2, status=k % 3 - 1, pid=pid)
    d["energy"] = math.sqrt(d["px"]**2 + d["py"]**2 + d["pz"]**2 + d["mass"]**2)
    return d
SIZES = [1, 2, 6, 13]
def value(d, v):
    if v in OLD: v = OLD[v]
    return FORM[v](d) if v in FORM else d[v]
def make(d):
    h = Hit()
    for v in INTS + FLOATS: h[v] = d[v]
    return h
def beam(n, kind):
    Hitcore.set_weight_context(WeightContext())
    return [state(k, kind) for k in range(n)]
def same(a, b): return abs(a - b) <= 1e-9*(1 + abs(b))
def snap(h): return [h[v] for v in FLOATS + INTS]
def snaps(b): return [snap(h) for h in b]
class Sums:
    """weighted moments of the beam by the defining sums"""
    def __init__(self, ds):
        self.w = [value(d, "weight") for d in ds]
        self.tot = sum(self.w)
    def mean(self, X): return sum(w*x for w, x in zip(self.w, X))/self.tot
    def cov(self, X, Y):
        a, b = self.mean(X), self.mean(Y)
        return sum(w*(x - a)*(y - b) for w, x, y in zip(self.w, X, Y))/self.tot

def put(d, v, val):
    """set one variable of the reference state; None if it is refused"""
    d = dict(d)
    if v in OLD: v = OLD[v]
    if v == "p":
        p = FORM["p"](d)
        if p == 0: d["pz"] = p = 1.0
        for c in ("px", "py", "pz"): d[c] *= val/p
    elif v in ("x'", "y'", "t'") and abs(d["pz"]) < 1e-9: return None
    elif v == "x'": d["px"] = val*d["pz"]
    elif v == "y'": d["py"] = val*d["pz"]
    elif v == "t'":
        d["energy"] = -val*d["pz"]
        if d["pz"] < 0: d["energy"], d["pz"] = -d["energy"], -d["pz"]
        if d["energy"] < d["mass"]: return None
    elif v == "ct": d["t"] = val/C
    elif v == "kinetic_energy": d["energy"] = val + d["mass"]
    else: d[v] = val
    return d
def shell(d, v):
    d = dict(d)
    if v == "": return d
    if v == "energy":
        d["energy"] = math.sqrt(d["px"]**2 + d["py"]**2 + d["pz"]**2 + d["mass"]**2)
        return d
    val = d["energy"]**2 - d["mass"]**2
    if v == "p": return put(d, "p", math.sqrt(val) if val >= 0 else 0.0)
    for c in ("px", "py", "pz"):
        if c != v: val -= d[c]**2
    d[v] = math.sqrt(val) if val > 1e-6 else 0.0
    return d
ZERO = dict((v, 0.0) for v in FLOATS)
ZERO.update((v, 0) for v in INTS)
ZERO.update(local_weight=1.0, global_weight=1.0)

# values that can be given together in any order: the derived ones follow from the others
GIVEN = dict(x=1.5, y=-2.0, z=100.0, t=4.0, px=3.0, py=-4.0, pz=200.0, energy=400.0, bx=0.25, by=-0.5, bz=2e-3, ex=0.1, ey=0.2, ez=0.3, sx=0.5, sy=-0.25, sz=1.0, path_length=7.0,
             proper_time=8.0, e_dep=0.125, charge=-1.0, mass=100.0, local_weight=0.5, global_weight=2.0, spill=3, event_number=5, particle_number=2, eventNumber=6, particleNumber=4, station=9,
             status=-1, pid=2212)
GIVEN.update({"p": 250.0, "x'": 0.03125, "y'": -0.0625, "t'": -5.0, "ct": 600.0, "kinetic_energy": 1500.0})
CLASH = [{"p", "px"}, {"p", "py"}, {"p", "pz"}, {"p", "x'"}, {"p", "y'"}, {"p", "t'"}, {"x'", "px"}, {"y'", "py"}, {"t'", "energy"}, {"t'", "kinetic_energy"}, {"kinetic_energy", "energy"},
         {"ct", "t"}, {"event_number", "eventNumber"}, {"particle_number", "particleNumber"}]
def fits(names):
    return not any(c <= set(names) for c in CLASH) and not ({"x'", "y'", "t'"} & set(names) and "pz" not in names)
def solve(names, mass=None):
    """reference state: stored variables first, then those calculated from them"""
    d = dict(ZERO)
    for v in names:
        if v not in SETDERIVED: d = put(d, v, GIVEN[v])
    if mass is not None and "mass" not in names: d["mass"] = mass
    for v in names:
        if v in SETDERIVED:
            d = put(d, v, GIVEN[v])
            if d is None: return None
    return d

class C48(mc.Check):
    pid = "C48"
    level = "model_checking"
    technique = "exhaustive enumeration of variable names, pairs and orders of names, and operations on the real code"
    rule = ("every variable name that can be read x every operation that takes one (value, means, moments, cuts, removals, splits, histograms, vectors, "
            "written columns) on 4 sizes of beam x 4 weightings, every ordered pair of names in every operation that takes two, every name that can be set x every way to set it x "
            "every mass shell variable, every order of every pair (thorough: triple) of names given together to new_from_dict, to a dict unpickled or "
            "to columns of a file, every name of a bunch quantity x every list of axes, and names that are not on the lists in every operation")
    assumptions = ["floating-point agreement to 1e-9"]
    def cases(self):
        yield ["lists"]
        for kind in range(4):
            for n in SIZES:
                for v in GET + list(OLD) + AMPL: yield ["one", n, kind, v]
        for kind in ((1, 3) if not self.thorough else range(4)):
            for v in GET + list(OLD): yield ["two", 6, kind, v]
        for kind in (0, 3):
            for v in SET:
                for s in SHELL: yield ["set", kind, v, s]
        for v in SET:
            for w in SET:
                if v < w: yield ["together", [v, w]]
        for v, w, u in itertools.combinations(SET if self.thorough else ["x", "px", "pz", "energy", "mass", "pid", "spill", "event_number", "global_weight"] + SETDERIVED, 3):
            yield ["together", [v, w, u]]
        for kind in range(2):
            for n in (4, 9):
                for name in ("angular_momentum", "emittance", "dispersion", "dispersion_prime", "beta", "alpha", "gamma", "moment", "mean", "bunch_weight", "standard_deviation"):
                    yield ["bunch", n, kind, name]
        for w in range(len(WRONG)): yield ["wrong", w]
    def run_case(self, case):
        mc.seen(repr(case))
        return getattr(self, case[0])(*case[1:])
    def lists(self):
        for names, lib in ((GET, Hit.get_variables()), (SET, Hit.set_variables()), (SHELL, Hit.mass_shell_variables()), (GET + AMPL, Bunch.hit_get_variables()), (AXES, Bunch.get_axes())):
            mc.need(set(names) <= set(lib), "name-not-listed", sorted(set(names) - set(lib)))
        for v in Hit.get_variables(): Hit.new_from_dict({"pz": 1.0})[v]
        return "lists"
    def one(self, n, kind, v):
        ds = beam(n, kind)
        b = Bunch.new_from_hits([make(d) for d in ds])
        s = Sums(ds)
        op = "one"
        if v in AMPL: return self.amplitude(b, n, v)
        X = [value(d, v) for d in ds]
        before = snaps(b)
        def eq(op, got, want):
            mc.S.add("transitions")
            mc.need(same(got, want), "value-" + op, op, v, got, want)
        def ids(hs): return [h["event_number"] for h in hs]
        def sel(f): return [d["event_number"] for d, x in zip(ds, X) if f(x)]
        for h, x in zip(b, X):
            eq("get", h.get(v), x)
            eq("item", h[v], x)
            eq("get_hit_variable", b.get_hit_variable(h, v), x)
            eq("get_vector", h.get_vector([v])[0, 0], x)
            eq("get_vector-origin", h.get_vector([v], {v: 0.5})[0, 0], x - 0.5)
        L = b.list_get_hit_variable([v, v], ["", ""])
        for l in L + b.list_get_hit_variable([v]):
            mc.need(len(l) == n, "length", op, v)
            for a, x in zip(l, X): eq("list_get_hit_variable", a, x)
        for u, f in UNIT.get(v, []):
            for a, x in zip(b.list_get_hit_variable([v], [u])[0], X): eq("units", a, x/f)
        if s.tot > 0:
            m, c = s.mean(X), s.cov(X, X)
            sc = max(abs(x) for x in X)**2 + 1e-30
            eq("mean", b.mean([v])[v], m)
            eq("get-mean", b.get("mean", [v]), m)
            eq("list_get", Bunch.list_get({0: b}, ["mean"], [[v]])[0][0], m)
            for nm, got in (("moment", b.moment([v, v])), ("moment-about", b.moment([v, v], {v: m})), ("covariance", b.covariance_matrix([v])[0, 0]), ("get-moment", b.get("moment", [v, v])),
                            ("covariance-origin", b.covariance_matrix([v], {v: m})[0, 0])):
                mc.S.add("transitions")
                mc.need(abs(got - c) <= 1e-9*sc, "value-" + nm, v, got, c)
            for nm, got in (("sd", b.standard_deviation(v)), ("sd-list", b.standard_deviation([v])), ("get-sd", b.get("standard_deviation", [v])), ("sd-about", b.standard_deviation(v, m))):
                if c > 1e-6*sc: mc.need(same(got, math.sqrt(c)), "value-" + nm, v, got, math.sqrt(c))
            eq("moment-zero", b.moment([v], {v: 0.0}), m)
            eq("bunch_weight", b.get("bunch_weight", [v]), s.tot)
        marks = sorted(set(X))[::max(1, len(set(X))//3)]
        for x in marks + [sum(X)/len(X) + 0.1, max(X) + 1.0, min(X) - 1.0]:
            for cmp in (operator.lt, operator.le, operator.eq, operator.ne, operator.ge, operator.gt):
                if v in FORM and cmp in (operator.eq, operator.le, operator.ge, operator.ne, operator.lt, operator.gt) and any(0 < abs(y - x) < 1e-9 for y in X): continue
                mc.S.add("transitions")
                mc.need(ids(b.get_hits(v, x, cmp)) == sel(lambda y: cmp(y, x)), "value-get_hits", v, x, cmp.__name__)
                for g in (False, True):
                    wv = "global_weight" if g else "local_weight"
                    c = b.deepcopy()
                    c.cut({v: x}, cmp, False, g)
                    want = [0.0 if cmp(y, x) else d[wv] for d, y in zip(ds, X)]
                    if not (v in ("global_weight", "weight") and g): mc.need([h[wv] for h in c] == want, "value-cut", v, x, cmp.__name__, g, [h[wv] for h in c], want)
                    mc.need(ids(c) == ids(b), "cut-removes", v)
                    for d, h in zip(ds, b): h["global_weight"] = d["global_weight"]
                c = b.deepcopy()
                c.conditional_remove({v: x}, cmp)
                mc.need(ids(c) == sel(lambda y: not cmp(y, x)), "value-conditional_remove", v, x, cmp.__name__)
        if s.tot > 0 and s.cov(X, X) > 1e-6*(max(abs(x) for x in X)**2):
            sd = math.sqrt(s.cov(X, X))
            for k in (0.3, 1.1, -0.7):
                if any(abs(x - k*sd) < 1e-6*sd for x in X): continue
                c = b.deepcopy()
                c.cut({v: k}, operator.ge, True)
                mc.need([h["local_weight"] for h in c] == [0.0 if x >= k*sd else d["local_weight"] for d, x in zip(ds, X)], "value-cut-nsigma", v, k)
                c = b.deepcopy()
                c.conditional_remove({v: k}, operator.ge, True)
                mc.need(ids(c) == sel(lambda x: not x >= k*sd), "value-remove-nsigma", v, k, ids(c))
        parts = b.split(v)
        mc.need(sum(len(p) for p in parts.values()) == n, "split-total", v)
        for k, p in parts.items():
            mc.need(ids(p) == sel(lambda x: int(x) == int(k)) if v in INTS or v in OLD else all(x in ids(b) for x in ids(p)), "value-split", v, k)
        lo, hi = min(X) - 1.0, max(X) + 1.0
        mid = (lo + hi)/2 + 0.0371
        want = [sum(w for w, x in zip(s.w, X) if lo <= x < mid), sum(w for w, x in zip(s.w, X) if mid <= x < hi)]
        if not any(abs(x - mid) < 1e-9 for x in X):
            H = b.histogram_var_bins(v, [lo, mid, hi])[0]
            got = [float(numpy.sum(H[k])) for k in range(2)] if len(H) == 2 else [float(y) for y in numpy.ravel(H)]
            mc.need(same(got[0], want[0]) and same(got[1], want[1]), "value-histogram_var_bins", v, got, want)
        H = b.histogram(v, nx_bins=4, xmin=lo, xmax=hi)[0]
        mc.need(same(float(numpy.sum(H)), s.tot), "value-histogram", v, float(numpy.sum(H)), s.tot)
        f = io.StringIO()
        b.hit_write_user([v], {v: ""}, f)
        got = f.getvalue().split()
        mc.need(len(got) == n and all(same(float(g), x) for g, x in zip(got, X)), "value-hit_write_user", v, got, X)
        for u, k in UNIT.get(v, []):
            f = io.StringIO()
            b[0].write_user_formatted([v], {v: u}, f)
            mc.need(same(float(f.getvalue()), X[0]/k), "value-write-units", v, u, f.getvalue())
        mc.need(snaps(b) == before, "reading-changes-beam", v)
        return ["one", v in FORM, s.tot > 0]
    def amplitude(self, b, n, v):
        """amplitudes are particle amplitudes of get_amplitude by every route"""
        axes = v.split()[1:]
        if sum(h["weight"] > 0 for h in b) < 2*len(axes) + 2: return "few"
        want = [Bunch.get_amplitude(b, h, list(axes)) for h in b]
        if any(y != y for y in want): return "undefined"
        before = snaps(b)
        W = [h["weight"] for h in b]
        for nm, got in (("get_hit_variable", [b.get_hit_variable(h, v) for h in b]), ("list_get_hit_variable", b.list_get_hit_variable([v])[0]),
                        ("list-unit", [1e3*y for y in b.list_get_hit_variable([v], ["m"])[0]])):
            mc.need(len(got) == n and all(abs(g - x) <= 1e-6*(1 + abs(x)) for g, x in zip(got, want)), "value-amplitude-" + nm, v, got, want)
        m = sum(want)/n
        srt = sorted(want)
        x = (srt[n//2] + srt[n//2 - 1])/2
        if srt[n//2] - srt[n//2 - 1] > 1e-3*(1 + abs(x)):
            mc.need([h["event_number"] for h in b.get_hits(v, x, operator.gt)] == [h["event_number"] for h, y in zip(b, want) if y > x], "value-amplitude-get_hits", v)
            c = b.deepcopy()
            c.cut({v: x}, operator.gt)
            mc.need([h["local_weight"] for h in c] == [0.0 if y > x else h["local_weight"] for h, y in zip(b, want)], "value-amplitude-cut", v)
            c = b.deepcopy()
            c.conditional_remove({v: x}, operator.gt)
            mc.need([h["event_number"] for h in c] == [h["event_number"] for h, y in zip(b, want) if not y > x], "value-amplitude-remove", v)
            H = b.histogram_var_bins(v, [min(want) - 1, x, max(want) + 1])[0]
            got = [float(numpy.sum(H[k])) for k in range(2)] if len(H) == 2 else [float(y) for y in numpy.ravel(H)]
            mc.need(same(got[0], sum(w for w, y in zip(W, want) if y < x)) and same(got[1], sum(w for w, y in zip(W, want) if y >= x)), "value-amplitude-histogram", v, got)
        mc.need(snaps(b) == before, "reading-changes-beam", v)
        return "amplitude"
    def two(self, n, kind, v):
        ds = beam(n, kind)
        b = Bunch.new_from_hits([make(d) for d in ds])
        s = Sums(ds)
        X = [value(d, v) for d in ds]
        before = snaps(b)
        def ids(hs): return [h["event_number"] for h in hs]
        for u in GET + list(OLD):
            Y = [value(d, u) for d in ds]
            mc.S.add("transitions")
            sx, sy = max(map(abs, X)) + 1e-30, max(map(abs, Y)) + 1e-30
            M = b.covariance_matrix([v, u])
            c = s.cov(X, Y)
            mc.need(abs(b.moment([v, u]) - c) <= 1e-9*sx*sy, "pair-moment", v, u)
            mc.need(abs(M[0, 1] - c) <= 1e-9*sx*sy and abs(M[1, 0] - c) <= 1e-9*sx*sy and abs(M[0, 0] - s.cov(X, X)) <= 1e-9*sx*sx, "pair-covariance", v, u)
            m = b.mean([v, u])
            mc.need(same(m[v], s.mean(X)) and same(m[u], s.mean(Y)), "pair-mean", v, u)
            L = b.list_get_hit_variable([u, v, u, v, "x"], ["", "m", "mm", "", "cm"])
            for j, (A, k) in enumerate(((Y, 1.0), (X, 1e3), (Y, 1.0), (X, 1.0), ([h["x"] for h in b], 10.0))):
                mc.need(len(L[j]) == len(A) and all(same(a, x/k) for a, x in zip(L[j], A)), "list-five-units", v, u, j)
            L = b.list_get_hit_variable([v, u])
            mc.need(all(same(a, x) for a, x in zip(L[0], X)) and all(same(a, x) for a, x in zip(L[1], Y)) and len(L) == 2, "pair-list", v, u)
            V = b[2].get_vector([v, u], {u: 1.0})
            mc.need(same(V[0, 0], X[2] - (1.0 if u == v else 0.0)) and same(V[0, 1], Y[2] - 1.0), "pair-vector", v, u)
            V = b[2].get_vector([v, u], {v: 1.0})
            mc.need(same(V[0, 0], X[2] - 1.0) and same(V[0, 1], Y[2] - (1.0 if u == v else 0.0)), "pair-vector-first", v, u)
            ox, oy = X[2] + 0.5, Y[2] - 0.25
            if u != v:
                for o in ({v: ox, u: oy}, {u: oy, v: ox}, {v: ox}, {u: oy}):
                    a, e = o.get(v, s.mean(X)), o.get(u, s.mean(Y))
                    want = sum(w*(x - a)*(y - e) for w, x, y in zip(s.w, X, Y))/s.tot
                    sc = 4*(sx + abs(a))*(sy + abs(e))
                    mc.need(abs(b.moment([v, u], dict(o)) - want) <= 1e-9*sc, "pair-moment-about", v, u, o)
                    mc.need(abs(b.covariance_matrix([v, u], dict(o))[0, 1] - want) <= 1e-9*sc, "pair-covariance-about", v, u, o)
            f = io.StringIO()
            b.hit_write_user([v, u], {v: "", u: ""}, f, separator=" ")
            rows = [[float(w) for w in l.split()] for l in f.getvalue().splitlines()]
            mc.need(len(rows) == n and all(same(r[0], x) and same(r[1], y) for r, x, y in zip(rows, X, Y)), "pair-write", v, u)
            if u == v: continue
            cx, cy = sorted(X)[n//2] + 1e-5, sorted(Y)[n//2] + 1e-5
            if any(abs(x - cx) < 1e-6 for x in X) or any(abs(y - cy) < 1e-6 for y in Y): continue
            keep = [not (x > cx or y > cy) for x, y in zip(X, Y)]
            d = b.deepcopy()
            d.conditional_remove({v: cx, u: cy}, operator.gt)
            mc.need(ids(d) == [e["event_number"] for e, k in zip(ds, keep) if k], "pair-remove", v, u, ids(d))
            if not {"weight", "local_weight"} & {u, v}:
                d = b.deepcopy()
                d.cut({v: cx, u: cy}, operator.gt)
                mc.need([h["local_weight"] for h in d] == [e["local_weight"] if k else 0.0 for e, k in zip(ds, keep)], "pair-cut", v, u)
            H = b.histogram_var_bins(v, [min(X) - 1, cx, max(X) + 1], "", u, [min(Y) - 1, cy, max(Y) + 1], "")[0]
            for i, j in itertools.product(range(2), repeat=2):
                want = sum(w for w, x, y in zip(s.w, X, Y) if (x >= cx) == bool(i) and (y >= cy) == bool(j))
                mc.need(same(float(H[i][j]), want), "pair-histogram", v, u, i, j, float(H[i][j]), want)
        mc.need(snaps(b) == before, "reading-changes-beam", v)
        return "two"
    def set(self, kind, v, sh):
        vals = [GIVEN[v]] + ([7, -3] if v in INTS or v in OLD else [0.5, 12.0])
        if v == "pid": vals = [2212, 13, 211]
        if v in ("event_number", "eventNumber", "particle_number", "particleNumber", "spill"): vals = [1005, 2007]
        if v == "mass": vals = [100.0, 0.5]
        out = []
        for k in (1, 4, 5):
            for val in vals:
                for how in ("set", "item", "translate", "bunch-translate", "abelian", "bunch-abelian"):
                    ds = beam(6, kind)
                    for i, d in enumerate(ds): d["event_number"] = 10*i + 1
                    d0 = dict(ds[k])
                    if v in INTS or v in OLD:
                        if "abelian" in how: continue # a matrix makes floating point numbers
                    if v in ("global_weight", "spill", "event_number", "particle_number") or v in OLD:
                        # each identity has a global weight; keep to identities of weight 1
                        if v != "global_weight": d0["global_weight"] = 1.0
                    h = make(d0)
                    add = "translate" in how or "abelian" in how
                    target = value(d0, v) + val if add else val
                    want = put(d0, v, target)
                    if add and want is not None: want = shell(want, sh)
                    err = None
                    mc.S.add("transitions")
                    bu = Bunch.new_from_hits([h]) if "bunch" in how else None
                    try:
                        if how == "set": h.set(v, val)
                        elif how == "item": h[v] = val
                        elif how == "translate": h.translate({v: val}, sh)
                        elif how == "bunch-translate": bu.translate({v: val}, sh)
                        elif how == "abelian": h.abelian_transformation([v], numpy.matrix([[1.0]]), {v: val}, {}, sh)
                        else: bu.abelian_transformation([v], numpy.matrix([[1.0]]), {v: val}, {}, sh)
                    except FloatingPointError as e: err = e
                    if want is None:
                        mc.need(err is not None, "impossible-accepted", v, how, val)
                        continue
                    mc.need(err is None, "name-refused", v, how, val, sh, err)
                    if bu is not None: h = bu[0]
                    for g in FLOATS + INTS:
                        a, w = h[g], want[g]
                        if sh in ("px", "py", "pz") and g == sh and add: a, w = abs(a), abs(w)
                        if sh == "p" and add and g in ("px", "py", "pz"): pass
                        mc.need(abs(a - w) <= 1e-7*(1 + abs(w)), "set-" + how, v, val, sh, g, h[g], want[g])
                    if not add:
                        mc.need(same(h[v] if v not in OLD else h[OLD[v]], val), "reads-back", v, val, how)
                    out.append(how)
        return ["set", len(set(out))]
    def together(self, names):
        if not fits(names): return "clash"
        want = solve(names)
        orders = list(itertools.permutations(names))
        for o in orders:
            mc.S.add("transitions")
            Hitcore.set_weight_context(WeightContext())
            if want is not None:
                for how in ("dict", "dict-shell", "setstate"):
                    if how == "dict": h = Hit.new_from_dict(dict((v, GIVEN[v]) for v in o))
                    elif how == "dict-shell": h = Hit.new_from_dict(dict((v, GIVEN[v]) for v in o), "")
                    else:
                        h = Hit.__new__(Hit)
                        h.__setstate__(dict((v, GIVEN[v]) for v in o))
                    self.compare(h, want, o, how)
            # columns of a file; the particle type gives the mass where there is no column of it
            for pid in ((-13, 2212) if "pid" not in names else (None,)):
                mass = MASS[pid or GIVEN["pid"]]
                ref = solve(names, mass)
                if ref is None: continue
                ref["pid"] = pid or GIVEN["pid"]
                if "charge" not in names: ref["charge"] = CHARGE[ref["pid"]]
                for first in ((True, False) if pid else (True,)):
                    cols = ((["pid"] if pid else []) + list(o)) if first else list(o) + ["pid"]
                    row = " ".join(repr(GIVEN[v]) if v != "pid" or not pid else str(pid) for v in cols)
                    units = dict((v, "") for v in cols)
                    for how in ("file", "bunch-file"):
                        Hitcore.set_weight_context(WeightContext())
                        f = io.StringIO("title\n" + row + "\n")
                        if how == "file":
                            next(f)
                            h = Hit.new_from_read_user(cols, units, f)
                        else:
                            b = Bunch.new_from_read_user(cols, units, f, 1)
                            mc.need(len(b) == 1, "line-not-read", cols)
                            h = b[0]
                        self.compare(h, ref, cols, how)
        return ["together", len(names), want is not None]
    def compare(self, h, want, o, how):
        mc.seen(repr((how, o, snap(h))))
        for g in FLOATS + INTS:
            mc.need(abs(h[g] - want[g]) <= 1e-9*(1 + abs(want[g])), "order-of-names", how, list(o), g, h[g], want[g])
        for g in o: mc.need(same(h[OLD.get(g, g)], GIVEN[g] if not (g == "pid" and g not in GIVEN) else h[g]) or g == "pid", "given-value-lost", how, list(o), g, h[OLD.get(g, g)], GIVEN[g])
    def bunch(self, n, kind, name):
        ds = beam(n, kind)
        b = Bunch.new_from_hits([make(d) for d in ds])
        before = snaps(b)
        s = Sums(ds)
        lists = [list(l) for r in (1, 2) for l in itertools.product(AXES, repeat=r)]
        ans = 0
        for ax in lists:
            if name == "moment": f = lambda: b.moment(list(ax))
            elif name == "mean": f = lambda: b.mean([ax[0]])[ax[0]]
            elif name == "standard_deviation": f = lambda: b.standard_deviation(ax[0])
            elif name == "bunch_weight": f = lambda: b.bunch_weight()
            elif name == "angular_momentum": f = lambda: b.get_kinetic_angular_momentum()
            elif name in ("dispersion", "dispersion_prime"): f = lambda: getattr(b, "get_" + name)(ax[0])
            else: f = lambda: getattr(b, "get_" + name)(list(ax))
            def go(f):
                mc.S.add("transitions")
                try: return float(f())
                except Exception as e: return type(e).__name__
            w = go(f)
            got = go(lambda: b.get(name, list(ax)))
            lst = go(lambda: Bunch.list_get({"one": b}, [name], [list(ax)])[0][0])
            for nm, g in (("get", got), ("list_get", lst)):
                mc.need(type(g) == type(w) and (g == w or (not isinstance(w, str) and (same(g, w) or (g != g and w != w)))), "bunch-" + nm, name, ax, g, w)
            if not isinstance(w, str): ans += 1
            if name in ("mean", "bunch_weight", "standard_deviation", "moment") or len(ax) == 1 and ax[0] in ("x", "y"):
                mc.need(not isinstance(w, str), "bunch-name-refused", name, ax, w)
        two = Bunch.list_get({1: b, 0: b}, ["mean", name], [["x"], ["x"] if name != "moment" else ["x", "x"]])
        mc.need(len(two) == 2 and len(two[0]) == 2 and len(two[1]) == 2, "bunch-list-shape", name)
        mc.need(snaps(b) == before, "reading-changes-beam", name)
        return ["bunch", ans > 0]
    def wrong(self, w):
        """a name that is on no list, or cannot be set, is refused everywhere and nothing changes"""
        v = WRONG[w]
        ds = beam(6, 1)
        b = Bunch.new_from_hits([make(d) for d in ds])
        before = snaps(b)
        good = ["x"]
        ops = dict(get=lambda: b[1].get(v), item=lambda: b[1][v], get_hit_variable=lambda: b.get_hit_variable(b[1], v), list_get=lambda: b.list_get_hit_variable([v]),
                   list_get2=lambda: b.list_get_hit_variable(["x", v]), mean=lambda: b.mean([v]), mean2=lambda: b.mean(["x", v]), moment=lambda: b.moment([v]), moment2=lambda: b.moment(["x", v]),
                   cov=lambda: b.covariance_matrix(["x", v]), sd=lambda: b.standard_deviation(v), vector=lambda: b[1].get_vector(["x", v]), get_hits=lambda: b.get_hits(v, 0.5),
                   cut=lambda: b.cut({v: 0.5}, operator.gt), cutg=lambda: b.cut({v: 0.5}, operator.gt, False, True), cuts=lambda: b.cut({v: 0.5}, operator.gt, True),
                   remove=lambda: b.conditional_remove({v: 0.5}, operator.gt), removes=lambda: b.conditional_remove({v: 0.5}, operator.gt, True), split=lambda: b.split(v),
                   hist=lambda: b.histogram(v), hist2=lambda: b.histogram("x", "", v, ""), var=lambda: b.histogram_var_bins(v, [0., 1.]), write=lambda: b.hit_write_user([v], {v: ""}, io.StringIO()),
                   set=lambda: b[1].set(v, 1.0), item_set=lambda: operator.setitem(b[1], v, 1.0), translate=lambda: b.translate({v: 1.0}), htranslate=lambda: b[1].translate({v: 1.0}, ""),
                   abelian=lambda: b.abelian_transformation([v], numpy.matrix([[1.0]])), abelian2=lambda: b.abelian_transformation([v, "x"], numpy.matrix([[1.0, 0.0], [0.0, 1.0]]), {"x": 1.0}),
                   dict_=lambda: Hit.new_from_dict({v: 1.0}), dict2=lambda: Hit.new_from_dict({"x": 1.0, v: 1.0} if isinstance(v, str) else {v: 1.0}), read=lambda: Hit.new_from_read_user([v], {v: ""}, io.StringIO("1\n")),
                   bread=lambda: Bunch.new_from_read_user(["pid", v], {v: "", "pid": ""}, io.StringIO("-13 1\n"), 0), msc=lambda: b[1].mass_shell_condition(v),
                   dmsc=lambda: Hit.new_from_dict({"x": 1.0}, v), bget=lambda: b.get(v, ["x"]), amplitude=lambda: b.get("amplitude x", ["x"]), period=lambda: b.period_transformation(0.0, 1.0, v),
                   builtin=lambda: Hit.new_from_read_builtin(v, io.StringIO("1\n")), emittance=lambda: b.get_emittance([v]), beta=lambda: b.get_beta([v]), disp=lambda: b.get_dispersion(v),
                   # names that can be read but not set
                   ro_r=lambda: b[1].set("r", 1.0), ro_phi=lambda: b[1].set("phi", 1.0), ro_weight=lambda: b[1].set("weight", 1.0), ro_pt=lambda: b.translate({"pt": 1.0}), ro_spin=lambda: b.translate({"spin": 1.0}),
                   ro_l=lambda: b[1].translate({"l_kin": 1.0}, ""), ro_zp=lambda: b[1].set("z'", 1.0), ro_read=lambda: Hit.new_from_read_user(["r"], {"r": ""}, io.StringIO("1\n")),
                   ro_dict=lambda: Hit.new_from_dict({"r_squared": 1.0}))
        for nm, f in sorted(ops.items()):
            mc.S.add("transitions")
            try: r = f()
            except Exception: pass
            else: raise mc.Bad("unlisted-accepted", "%s takes the name %r and gives %s" % (nm, v, repr(r)[:80]))
            mc.need(snaps(b) == before, "refused-but-changed", nm, v)
        return "wrong"
if __name__ == "__main__": mc.main(C48)
