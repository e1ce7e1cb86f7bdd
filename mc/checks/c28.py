import itertools, math
from fractions import Fraction
import mc
mc.block_root()
import numpy
from xboa.hit import Hit
from xboa.tracking import TrackingBase
from xboa.algorithms.tune import DPhiTuneFinder, FFTTuneFinder
from xboa.algorithms.peak_finder import WindowPeakFinder

SHAPES = [(1.0, 0.0), (10.0, 1.0), (0.2, -2.5), (300.0, 40.0)]   # beta, alpha
CENTRES = [(0.0, 0.0), (10.0, 7.0), (-3.0, 0.5)]

def signal(n, nu, amp, phi0, shape, centre):
    b, a = shape
    u, up = [], []
    for k in range(n):
        phi = phi0 + 2.0 * math.pi * float((nu * k) % 1 if isinstance(nu, Fraction) else nu * k)
        u.append(centre[0] + amp * math.sqrt(b) * math.cos(phi))
        up.append(centre[1] - amp / math.sqrt(b) * (a * math.cos(phi) + math.sin(phi)))
    return u, up

class Machine(TrackingBase):
    """A linear oscillation about a closed orbit, from where the hit starts."""
    def __init__(self, n, nu, axes, shape, centre):
        TrackingBase.__init__(self)
        self.n, self.nu, self.axes, self.shape, self.centre, self.calls = n, nu, axes, shape, centre, []
    def track_one(self, hit):
        self.calls.append(hit)
        b, a = self.shape
        x, p = hit[self.axes[0]] - self.centre[0], hit[self.axes[1]] - self.centre[1]
        out = []
        for k in range(self.n):
            phi = 2.0 * math.pi * float(self.nu * k)
            c, s = math.cos(phi), math.sin(phi)
            h = hit.deepcopy()
            h[self.axes[0]] = self.centre[0] + (c + a * s) * x + b * s * p
            h[self.axes[1]] = self.centre[1] - (1 + a * a) / b * s * x + (c - a * s) * p
            out.append(h)
        return out

def grid(top):
    out = set()
    for q in range(3, top + 1):
        for p in range(1, q):
            if math.gcd(p, q) == 1: out.add(Fraction(p, q))
    return sorted(out)

class Sharp(object):
    """A peak finder that may well find none."""
    def __init__(self, level): self.level = level
    def find_peaks(self, data): return [i for i in range(1, len(data) - 1) if data[i - 1] < data[i] > data[i + 1] and data[i] > self.level]

class C28(mc.Check):
    pid = "C28"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of rational tunes, phases, shapes and repeated use through the real finders, against the known tune"
    rule = ("every rational tune with denominator up to 9 (thorough 16), and some up to 50, with 4 ellipse shapes, 3 centres, 6 starting phases, 2 amplitudes and 3 lengths; all ordered "
            "pairs of 8 signals given to one finder in turn, by hand and by tracking, with and without a selection of hits; unusable inputs")
    assumptions = ["the direction of rotation is that of the Twiss functions (clockwise)", "the Fourier finder is judged for tunes at least 4 resolution steps from 0 and 1/2"]
    def cases(self):
        T = self.thorough
        for nu in (Fraction(1, 12), Fraction(1, 20), Fraction(2, 31), Fraction(1, 50), Fraction(11, 12), Fraction(19, 20), Fraction(30, 31), Fraction(49, 50)):
            for s in range(len(SHAPES)): yield ["dphi", [nu.numerator, nu.denominator], s]
        for nu in grid(16 if T else 9):
            for s in range(len(SHAPES)):
                yield ["dphi", [nu.numerator, nu.denominator], s]
                yield ["fft", [nu.numerator, nu.denominator], s]
        for a, b in itertools.product(range(8), repeat=2):
            for kind in ("dphi", "fft", "sharp"): yield ["again", kind, a, b]
        for nu in grid(7 if T else 5):
            for s in range(len(SHAPES)):
                for axes in (("x", "px"), ("y", "py"), ("t", "energy")): yield ["track", [nu.numerator, nu.denominator], s, list(axes)]
        for k in range(8): yield ["bad", k]
    def run_case(self, case):
        if case[0] in ("dphi", "fft", "track"): return getattr(self, case[0])(case, Fraction(*case[1]), SHAPES[case[2]], *case[3:])
        return getattr(self, case[0])(case, *case[1:])
    def phases(self, case, f, n, nu, exact, tol):
        mc.need(len(f.dphi) == n - 1, "number-of-steps", case, len(f.dphi), n)
        for k, d in enumerate(f.dphi):
            mc.need(-1e-9 <= d <= 1 + 1e-9, "step-range", case, k, d)
            # a whole turn less rounding and no turn at all are the same
            if exact: mc.need(abs((d - float(nu) + 0.5) % 1.0 - 0.5) < tol, "step", case, k, d, nu)
    def dphi(self, case, nu, shape):
        obs = []
        q = nu.denominator
        for centre in CENTRES:
            for amp in (1.0, 0.001):
                for ph in range(6):
                    for n in (q, 2 * q, 5 * q + 1, 60):
                        u, up = signal(n, nu, amp, 0.3 + ph * math.pi / 3, shape, centre)
                        keep = (list(u), list(up))
                        f = DPhiTuneFinder(u, up)
                        tune = f.get_tune()
                        exact = n % q == 0
                        tol = 1e-6 if amp == 1.0 else 1e-3     # the covariance loses digits when the centre is far away
                        self.phases(case, f, n, nu, exact, tol)
                        if exact:
                            mc.need(abs(tune - float(nu)) < tol, "tune", case, n, centre, amp, ph, tune)
                            mc.need(abs(f.tune_error) < tol, "spread", case, f.tune_error)
                            m = numpy.array(f.centre) - numpy.array(centre)
                            mc.need(max(abs(m)) <= 1e-9 * (10 + amp * max(shape[0], 1)), "centre", case, f.centre)
                        elif n > 2 * q: mc.need(abs(tune - float(nu)) <= 1.0 / (n - 1) + 1e-9, "tune", case, n, centre, amp, ph, tune)
                        mc.need(f.tune == tune and abs(tune - sum(f.dphi) / len(f.dphi)) < 1e-9, "attribute", case, f.tune, tune)
                        for again in range(2): mc.need(abs(f.get_tune() - tune) < 1e-12 and len(f.dphi) == n - 1, "again", case, tune, f.tune, len(f.dphi))
                        mc.need((u, up) == keep, "input-changed", case)
                        r = [math.hypot(*p) for p in f.point_circles]
                        if exact: mc.need(max(r) - min(r) < 10 * tol * max(r), "circle", case, min(r), max(r))
                        obs.append(round(tune, 5))
                        mc.S.add("transitions", 3)
        mc.seen(case)
        return [str(nu), case[2], mc.h(obs)]
    def fft(self, case, nu, shape):
        obs = []
        want = float(min(nu, 1 - nu))
        for n in (64, 101, 150) if not self.thorough else (64, 65, 101, 150, 301):
            m = n - 1 + n % 2
            if want < 4.0 / m or want > 0.5 - 4.0 / m: continue
            for centre in CENTRES:
                if centre[0] == 10.0 and want < 8.0 / m: continue
                for ph in range(6):
                    amp = 5.0
                    u, up = signal(n, nu, amp, 0.3 + ph * math.pi / 3, shape, (centre[0] * math.sqrt(shape[0]), centre[1]))
                    for tol in (None, 1e-5, 0.01):
                        a, b = (list(u), list(up)) if ph % 3 else (u, up) if ph % 2 else (tuple(u), tuple(up))
                        keep = (type(a)(a), type(b)(b))
                        f = FFTTuneFinder(a, b if ph != 4 else None, WindowPeakFinder(5, 0.0, 1) if ph == 2 else None)
                        tune = f.get_tune(tol)
                        slack = 0.25 / m if centre == (0.0, 0.0) else 0.5 / m
                        if tol is not None and tol > slack: slack = max(tol, 0.75 / m)
                        mc.need(abs(tune - want) <= slack, "tune", case, n, centre, ph, tol, tune, want, "in steps", (tune - want) * m)
                        mc.need(f.fractional_tune == tune, "attribute", case)
                        mc.need((a, b) == keep, "input-changed", case, n, len(a), len(b))
                        mc.need(f.get_tune(tol) == tune and (a, b) == keep, "again", case)
                        k = max(range(len(f.k_mag_x)), key=lambda i: f.k_mag_y[i] if f.k_mag_x[i] > 2.0 / m else 0)
                        mc.need(abs(f.k_mag_x[k] - want) <= 1.0 / m, "spectrum", case, f.k_mag_x[k], want)
                        # the spectrum is the transform of the data at the frequencies given
                        for i in range(0, len(f.k_mag_x), 7):
                            z = abs(sum(v * complex(math.cos(2 * math.pi * f.k_mag_x[i] * j), math.sin(2 * math.pi * f.k_mag_x[i] * j)) for j, v in enumerate(u[:m])))
                            mc.need(abs(z - f.k_mag_y[i]) <= 1e-7 * sum(abs(v) for v in u), "transform", case, n, f.k_mag_x[i], z, f.k_mag_y[i])
                        mc.need(len(f.peak_x_list) == len(f.peak_y_list), "peaks", case)
                        for x, y in zip(f.peak_x_list, f.peak_y_list):
                            z = abs(sum(v * complex(math.cos(2 * math.pi * x * j), math.sin(2 * math.pi * x * j)) for j, v in enumerate(u[:m])))
                            mc.need(abs(z - y) <= 1e-7 * sum(abs(v) for v in u), "height-of-peak", case, n, x, z, y)
                        obs.append(round(tune, 4))
                        mc.S.add("transitions", 2)
        mc.seen(case)
        return [str(nu), case[2], mc.h(obs)] if obs else None
    def again(self, case, kind, a, b):
        """One finder, one signal after another: the second answer is that of a new finder."""
        sig = [signal(61, 0.2137, 1.0, 0.1, SHAPES[0], CENTRES[0]), signal(61, 0.31, 2.0, 1.0, SHAPES[1], CENTRES[1]), signal(40, 0.31, 2.0, 1.0, SHAPES[2], CENTRES[2]),
               signal(61, 0.11, 1e-3, 2.0, SHAPES[0], CENTRES[0]), ([1.0] * 61, [2.0] * 61), (list(range(61)), list(range(61))), ([0.0] * 40, [0.0] * 40), signal(33, 0.4, 1.0, 0.0, SHAPES[3], CENTRES[0])]
        new = {"dphi": lambda *s: DPhiTuneFinder(*s), "fft": lambda *s: FFTTuneFinder(*s), "sharp": lambda *s: FFTTuneFinder(s[0], s[1], Sharp(3.0))}[kind]
        def ask(f):
            try: t = float(f.get_tune())
            except Exception as e: return type(e).__name__
            return None if t != t else t
        f = new(list(sig[a][0]), list(sig[a][1]))
        one = ask(f)
        f.u, f.up = list(sig[b][0]), list(sig[b][1])
        got = ask(f)
        fresh = new(list(sig[b][0]), list(sig[b][1]))
        want = ask(fresh)
        mc.need(got == want, "earlier-data", case, got, want)
        if not isinstance(want, str) and kind == "dphi": mc.need(f.dphi == fresh.dphi and len(f.point_circles) == len(fresh.point_circles), "earlier-steps", case)
        if not isinstance(want, str) and kind != "dphi": mc.need(f.peak_x_list == fresh.peak_x_list and f.peak_y_list == fresh.peak_y_list, "earlier-peaks", case)
        if kind == "dphi": mc.need(isinstance(want, str) == (b in (4, 5, 6)), "degenerate", case, want)
        mc.seen(case)
        mc.S.add("transitions", 2)
        return [kind, one, want]
    def track(self, case, nu, shape, axes):
        obs = []
        ref = Hit.new_from_dict({"x": 1.0, "y": -2.0, "px": 3.0, "py": 4.0, "t": 5.0, "energy": 1000.0, "mass": 938.0, "pid": 2212}, "pz")
        centre = (ref[axes[0]], ref[axes[1]])
        for d1, d2 in ((1.0, 0.0), (-2.0, 0.3), (0.5, -1.0)):
            for use in (None, list(range(0, 120, 2)), list(range(0, 60)), [1, 3, 5, 7] * 2):
                m = Machine(120, nu, axes, shape, centre)
                keep = [ref[v] for v in ("x", "y", "px", "py", "t", "energy", "pz")]
                f = DPhiTuneFinder()
                f.run_tracking(axes[0], axes[1], d1, d2, ref, m, use)
                mc.need([ref[v] for v in ("x", "y", "px", "py", "t", "energy", "pz")] == keep, "reference-changed", case)
                mc.need(len(m.calls) == 1 and m.calls[0] is not ref, "tracked", case)
                mc.need(abs(m.calls[0][axes[0]] - centre[0] - d1) < 1e-9 and abs(m.calls[0][axes[1]] - centre[1] - d2) < 1e-9, "displacement", case)
                want = [h for i, h in enumerate(m.track_one(m.calls[0])) if use is None or i in use]
                mc.need(f.u == [h[axes[0]] for h in want] and f.up == [h[axes[1]] for h in want], "hits-used", case, use, len(f.u), len(want))
                if use is None or len(use) == 60:
                    turn = (nu * (1 if use is None or use[1] == 1 else 2)) % 1
                    if turn.denominator >= 3 and len(want) % turn.denominator == 0:
                        t = f.get_tune()
                        mc.need(abs(t - float(turn)) < 1e-6, "tune", case, t, turn)
                        obs.append(round(t, 6))
                if axes[0] != "t":
                    g = FFTTuneFinder()
                    g.run_tracking(axes[0], d1, ref, m, use)
                    mc.need([ref[v] for v in ("x", "y", "px", "py", "t", "energy", "pz")] == keep, "reference-changed", case)
                    h = m.calls[-1]
                    mc.need(abs(h[axes[0]] - centre[0] - d1) < 1e-9 and h[axes[1]] == centre[1], "displacement", case)
                    want = [k for i, k in enumerate(m.track_one(h)) if use is None or i in use]
                    mc.need(g.u == [k[axes[0]] for k in want] and g.up == [k["p" + axes[0]] for k in want], "hits-used", case)
                mc.S.add("transitions", 2)
        mc.seen(case)
        return [str(nu), obs]
    def bad(self, case, k):
        ok = signal(20, 0.3, 1.0, 0.0, SHAPES[0], CENTRES[0])
        make = [lambda: DPhiTuneFinder(), lambda: DPhiTuneFinder(ok[0], None), lambda: DPhiTuneFinder(None, ok[1]), lambda: FFTTuneFinder(), lambda: FFTTuneFinder(None, ok[1]),
                lambda: DPhiTuneFinder([], []), lambda: DPhiTuneFinder([1.0], [2.0]), lambda: FFTTuneFinder([0.0] * 21, [1.0] * 21)][k]
        f = make()
        for again in range(2):
            try: t = f.get_tune()
            except Exception as e: err = type(e).__name__
            else: mc.need(False, "no-error", case, t)
            if k < 5: mc.need(err == "ValueError", "error", case, err)
        return [k, err]

if __name__ == "__main__": mc.main(C28)
