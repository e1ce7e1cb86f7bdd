import copy, itertools, math, os
import mc
import numpy
import ROOT
ROOT.gROOT.SetBatch(True)
ROOT.gErrorIgnoreLevel = 6000
from xboa.algorithms.peak_finder import UphillDownhillPeakFinder, WindowPeakFinder, RefinePeakFinder

TOL = 2e-3

def window(data, size, step, threshold):
    """The documented search, written out: every window's first highest point, unless it stands on
    an edge of the window that is not an edge of the data."""
    n = len(data)
    size = min(size, n)
    out = set()
    for i in range(0, n - size + 1, step):
        top = max(data[i:i + size])
        k = [j for j in range(i, i + size) if data[j] == top][0]
        if k == i and i > 0: continue
        if k == i + size - 1 and i + size < n: continue
        if threshold >= 1.0:
            w = data[i:i + size]
            mean = sum(w) / float(size)
            err = (sum(x * x for x in w) - mean * mean) ** 0.5 / size
            # too close to call in floating point: either answer will do
            if abs(top - mean - err * threshold) <= 1e-9 * (abs(top) + abs(mean) + err * threshold): return None
            if not top - mean > err * threshold: continue
        out.add(k)
    return sorted(out)

def refine(data, peak, seed, hi):
    """The refinement written out with exact least squares: the result, or "?" where a decision is too close to call"""
    n = len(data)
    def fit(d):
        lo, up = max(peak - d, 0), min(peak + d + 1, n)
        x = numpy.arange(lo - peak, up - peak, dtype=float)
        y = numpy.array(data[lo:up])
        A = numpy.stack([x ** 0, x, x * x], 1)
        c = numpy.linalg.lstsq(A, y, rcond=None)[0]
        r = y - A @ c
        bite = y[max(peak - lo - seed, 0):peak - lo + seed + 1]
        return (None if numpy.ptp(bite) < 1e-9 else (r.std() / bite.std() - 1.0) * seed ** 0.5), A, c, r
    d = seed
    while d < min(n, hi):
        d *= 2
        q = fit(d)[0]
        if q is None: break
        if abs(q - 1.0) < 1e-3: return "?"
        if q >= 1.0: break
    d = max(d // 2, seed)
    q, A, c, r = fit(d)
    if q is None or len(A) < 3 or abs(c[2]) < 1e-6: return "?"
    x, y = peak - c[1] / 2 / c[2], c[0] - c[1] ** 2 / 4 / c[2]
    if any(abs(v) < 2 * TOL * max(1.0, abs(x)) for v in (abs(x - peak) - d, x, x - n)): return "?"
    if abs(x - peak) > d or x < 0 or x > n: return None
    J = numpy.array([[0, -0.5 / c[2], c[1] / 2 / c[2] ** 2], [1.0, -c[1] / 2 / c[2], c[1] ** 2 / 4 / c[2] ** 2]])
    cov = J @ numpy.linalg.inv(A.T @ A) @ J.T
    if len(A) > 3: cov = cov * float(r @ r) / (len(A) - 3)
    return x, y, cov

class C26(mc.Check):
    pid = "C26"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of sequences and settings through the real finders, against direct definitions"
    rule = ("all sequences of length 1-7 (thorough 8) over 4 values for the slope and window finders with all window sizes, steps 1-3 and 4 thresholds; "
            "for the refinement every parabola vertex on a half-integer grid with every seed and range in 7-16 points, all pairs of seeds, and all sequences of length 5 over 3 values")
    assumptions = ["flat tops are not peaks for the slope finder", "the window finder's spread is sqrt(sum x^2 - mean^2)/n", "refinement results are required to 2e-3, the accuracy of the fit; data that are flat all round a seed are left out"]
    case_timeout = 120
    def cases(self):
        vals = ((0.0, 1.0, 2.0, 5.0), (-3.0, -1.5, 0.1, 0.2))
        for a in range(2):
            for n in range(1, 9 if self.thorough else 8):
                for head in itertools.product(range(4), repeat=max(0, n - 3)): yield ["seq", a, n, list(head)]
        self.alpha = vals
        for n in range(5, 17 if self.thorough else 13):
            for v2 in range(0, 2 * n - 1): yield ["parab", n, v2]
        for head in itertools.product(range(3), repeat=3): yield ["short", list(head)]
        for n in (8, 13) if not self.thorough else (6, 8, 11, 13, 20):
            for v2 in range(2, 2 * n - 2, 3):
                for k in range(3): yield ["ragged", n, v2, k]
        yield ["ctor"]
        for n in (20, 75, 400):
            for k in range(6): yield ["long", n, k]
        for n in (60, 200): yield ["sine", n]
    alpha = ((0.0, 1.0, 2.0, 5.0), (-3.0, -1.5, 0.1, 0.2))
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def seq(self, case, a, n, head):
        obs = []
        u = UphillDownhillPeakFinder()
        for tail in itertools.product(range(4), repeat=n - len(head)):
            data = [self.alpha[a][k] for k in list(head) + list(tail)]
            keep = list(data)
            got = u.find_peaks(data)
            want = [i for i in range(1, n - 1) if data[i - 1] < data[i] > data[i + 1]]
            mc.need(list(got) == want, "slope-peaks", case, data, got, want)
            mc.need(list(u.find_peaks(data)) == want, "slope-again", case, data)
            obs.append(want)
            full = n <= (7 if self.thorough else 6)
            for size in (range(1, n + 2) if full else (2, 3, n)):
                for step in ((1, 2, 3) if full else (1,)):
                    for th in ((0.0, 1.0, 1.7, 3.0) if full else (0.0, 1.7)):
                        want = window(data, size, step, th)
                        got = WindowPeakFinder(size, th, step).find_peaks(data)
                        mc.need(want is None or list(got) == want, "window-peaks", case, data, "size", size, "step", step, "threshold", th, got, want)
                        mc.S.add("transitions")
            mc.need(data == keep, "data-changed", case, data, keep)
            mc.seen([data])
        return [n, mc.h(obs)]
    def long(self, case, n, k):
        data = [((0, 1, 2, 5, 2, 7, -3, 1, 0, 0, 4)[(i * (k + 1) + i // 7 + i * i // 11) % 11] + (0, 0.01 * i, -0.03 * i)[k % 3]) * 1.0 for i in range(n)]
        obs = []
        u = UphillDownhillPeakFinder()
        want = [i for i in range(1, n - 1) if data[i - 1] < data[i] > data[i + 1]]
        mc.need(list(u.find_peaks(data)) == want, "slope-peaks", case, want)
        obs.append(want)
        for size in (1, 2, 3, 5, 10, 19, 33, 64, n - 1, n, n + 1):
            for step in (1, 2, 3, 7, size, size + 2):
                for th in (0.0, 1.0, 1.7, 3.0, 10.0):
                    want = window(data, size, step, th)
                    got = WindowPeakFinder(size, th, step).find_peaks(data)
                    mc.need(want is None or list(got) == want, "window-peaks", case, "size", size, "step", step, "threshold", th, got, want)
                    mc.S.add("transitions")
                    obs.append(want)
        mc.seen(case)
        return [n, mc.h(obs)]
    def ctor(self, case):
        w = WindowPeakFinder(4.0, 0, 2.0)
        mc.need(w.find_peaks([0., 1., 5., 1., 0., 0.]) == [2], "float-settings", case)
        r = RefinePeakFinder([1, 2], 3, 4, False)
        mc.need((r.peak_list, r.delta_seed, r.max_delta, r.draw) == ([1, 2], 3, 4, False), "refine-settings", case)
        mc.need(RefinePeakFinder([], 3, 4, False).find_peaks([1., 2., 1.]) == [], "no-peaks", case)
        return "ctor"
    def keys(self, case, got, data, seed, hi, peaks):
        last = -1
        for g in got:
            mc.need(g["x_in"] in peaks, "seed-lost", case, g)
            k = peaks.index(g["x_in"])
            mc.need(k > last, "order", case, got)
            last = k
            mc.need(abs(g["x"] - g["x_in"]) <= max(seed, hi) + 1e-9 and 0 <= g["x"] <= len(data), "out-of-neighbourhood", case, data, seed, hi, g)
            c = g["cov(x,y)"]
            mc.need(len(c) == 2 and len(c[0]) == 2 and abs(c[0][1] - c[1][0]) <= 1e-6 * abs(c[0][0] * c[1][1]) ** 0.5 + 1e-20, "covariance", case, c)
            mc.need(c[0][0] >= -1e-9 and c[1][1] >= -1e-9, "covariance-negative", case, c)
    def settle(self, case, got, data, peak, seed, hi):
        """One peak against the least-squares parabola over the range that fits"""
        want = refine(data, peak, seed, hi)
        if isinstance(want, str): return "?"
        mc.need(len(got) == (want is not None), "peak kept or dropped", case, data, "at", peak, "seed", seed, "max", hi, got, want)
        if want is None: return 0
        g, size = got[0], max(data) - min(data)
        mc.near(g["x"], want[0], "place of a peak", case, data, "at", peak, "seed", seed, "max", hi, rel=TOL, abs_=TOL)
        mc.near(g["y"], want[1], "height of a peak", case, data, "at", peak, "seed", seed, "max", hi, rel=TOL, abs_=TOL * size)
        c = want[2]
        for i in range(2):
            for j in range(2): mc.near(g["cov(x,y)"][i][j], float(c[i][j]), "errors of a peak", case, data, "at", peak, "seed", seed, "max", hi, (i, j), rel=0.03, abs_=1e-5 + 0.03 * math.sqrt(c[i][i] * c[j][j]))
        return 1
    def ragged(self, case, n, v2, k):
        """Parabolas with ripples, which fit only over some ranges"""
        obs = []
        for amp in (0.0, 0.3, 1.5, 6.0):
            data = [20.0 - 0.3 * (i - v2 / 2.0) ** 2 + amp * ((0, 1, -1, 0.5, -0.25, 0.75, -0.5)[(i * i * (k + 1) + k * i) % 7] - (0.02 * i * (i - n) if amp == 6.0 else 0.0)) for i in range(n)]
            for seed in (1, 2, 3):
                for hi in (seed, 2 * seed, 4 * seed + 1, n + 3):
                    for p in range(1, n - 1, 1 if self.thorough else 2):
                        if min(n, p + seed + 1) - max(0, p - seed) < 3 or numpy.ptp(data[max(0, p - seed):p + seed + 1]) < 1e-6: continue
                        got = RefinePeakFinder([p], seed, hi, False).find_peak_errors(data)
                        obs.append(self.settle(case, got, data, p, seed, hi))
                        mc.S.add("transitions")
        return [n, v2, mc.h(obs)]
    def parab(self, case, n, v2):
        v = v2 / 2.0
        data = [7.0 - 0.75 * (i - v) ** 2 for i in range(n)]
        keep = list(data)
        obs = []
        for seed in ((1, 2, 3, 4) if self.thorough else (1, 2, 3)):
            for hi in sorted(set([seed, seed + 1, 2 * seed, 2 * seed + 1, n + 3])):
                singles = []
                for p in range(n):
                    peaks = [p]
                    f = RefinePeakFinder(peaks, seed, hi, False)
                    # too few points for a parabola, or the vertex on the very edge of a range
                    if min(n, p + seed + 1) - max(0, p - seed) < 3 or any(abs(v - p) == seed * 2 ** k for k in range(5)) or v == 0: singles.append(None); continue
                    got = f.find_peak_errors(data)
                    self.keys(case, got, data, seed, hi, [p])
                    mc.need(len(got) <= 1, "too-many", case, got)
                    if abs(v - p) < seed: mc.need(len(got) == 1, "vertex-lost", case, "seed", seed, "max", hi, "at", p)
                    for g in got: mc.need(abs(g["x"] - v) < TOL and abs(g["y"] - 7.0) < TOL, "vertex", case, "seed", seed, "max", hi, "at", p, g)
                    pk = f.find_peaks(data)
                    mc.need(len(pk) == len(got) and all(isinstance(k, int) and abs(k - v) <= 0.5 + TOL for k in pk), "vertex-index", case, pk, got)
                    mc.need(peaks == [p] and data == keep, "input-changed", case)
                    singles.append(got)
                    obs.append(len(got))
                    mc.S.add("transitions")
                for p, q in itertools.permutations(range(0, n, 2 if not self.thorough else 1), 2):
                    if singles[p] is None or singles[q] is None or (not self.thorough and (hi not in (2 * seed, n + 3) or n > 8)): continue
                    got = RefinePeakFinder([p, q], seed, hi, False).find_peak_errors(data)
                    want = singles[p] + singles[q]
                    mc.need([g["x_in"] for g in got] == [g["x_in"] for g in want] and all(abs(g["x"] - w["x"]) < TOL for g, w in zip(got, want)), "peaks-not-independent", case, p, q, got, want)
        mc.need(data == keep, "data-changed", case)
        mc.seen(case)
        return [n, v2, mc.h(obs)]
    def short(self, case, head):
        obs = []
        for tail in itertools.product(range(3), repeat=2):
            core = [(0.0, 1.0, 3.0)[k] for k in list(head) + list(tail)]
            # a bump of ragged points on a falling slope on either side
            data = [-9.0, -4.0] + core + [-4.0, -9.5]
            keep = list(data)
            for seed, hi in ((1, 3), (2, 2), (2, 5), (3, 9)):
                one = {}
                for p in range(2, 7):
                    if len(set(data[p - seed:p + seed + 1])) == 1: one[p] = None; continue
                    one[p] = RefinePeakFinder([p], seed, hi, False).find_peak_errors(data)
                    self.keys(case, one[p], data, seed, hi, [p])
                    self.settle(case, one[p], data, p, seed, hi)
                for peaks in ([2, 6], [6, 4, 2], [3, 3]):
                    if any(one[p] is None for p in peaks): continue
                    got = RefinePeakFinder(peaks, seed, hi, False).find_peak_errors(data)
                    want = [g for p in peaks for g in one[p]]
                    mc.need(len(got) == len(want) and all(g["x_in"] == w["x_in"] and abs(g["x"] - w["x"]) < TOL * max(1, abs(w["x"])) for g, w in zip(got, want)), "peaks-not-independent", case, data, peaks, seed, hi, got, want)
                obs.append([one[p] and len(one[p]) for p in sorted(one)])
                mc.S.add("transitions", 8)
            mc.need(data == keep, "data-changed", case)
            mc.seen([data])
        return mc.h(obs)
    def sine(self, case, n):
        import math
        obs = []
        for period in (10, 20):
            for shift in range(period):
                data = [math.cos(2 * math.pi * (i - shift) / period) for i in range(n)]
                tops = [i for i in range(2, n - 2) if (i - shift) % period == 0]
                mc.need(UphillDownhillPeakFinder().find_peaks(data) == [i for i in range(1, n - 1) if data[i - 1] < data[i] > data[i + 1]], "slope-peaks", case)
                for off in (-1, 0, 1):
                    seeds = [i + off for i in tops]
                    got = RefinePeakFinder(seeds, 2, 4, False).find_peaks(data)
                    inner = [i for i in tops if 5 <= i < n - 5]
                    mc.need(all(i in got for i in inner) and all(min(abs(g - i) for i in tops) <= 1 for g in got), "sine-peaks", case, period, shift, off, got, tops)
                obs.append(len(tops))
                mc.seen([n, period, shift])
        return obs

if __name__ == "__main__": mc.main(C26)
