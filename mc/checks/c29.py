import itertools, math
import mc
mc.block_root()
import numpy
from xboa.hit import Hit
from xboa.tracking import MatrixTracking, TrackingBase
from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder, EllipseClosedOrbitFinderIteration
from c30 import fit

TUNES = [0.375, 1.25, 2.0, -0.75, 2.75]
SHAPES = [(1.0, 0.0), (4.0, 1.5), (0.25, -2.0)]
FIXED = [[0.0, 0.0, 0.0, 0.0, 0.0, 1000.0], [10.0, 7.0, -3.0, 2.0, 5.0, 1200.0]]
SEEDS = [(1.0, 0.5, 0.0, 0.0), (-2.0, 3.0, 0.5, -1.0), (0.0, 0.25, 4.0, 0.0)]
NAMES = ["x", "px", "y", "py", "t", "energy"]
WATCH = NAMES + ["z", "pz", "mass", "pid", "spill", "event_number", "local_weight"]

def turn(mux, muy, s):
    m = numpy.eye(6)
    for k, mu in ((0, mux), (2, muy)):
        beta, alpha = SHAPES[(s + k) % 3]
        c, w = math.cos(mu), math.sin(mu)
        m[k:k + 2, k:k + 2] = [[c + alpha * w, beta * w], [-(1 + alpha * alpha) / beta * w, c - alpha * w]]
    return m
def image(h): return [h[k] for k in WATCH]

class Recorder(TrackingBase):
    """Passes everything to a tracking and keeps copies of what went in and out"""
    def __init__(self, inner): self.inner, self.calls = inner, []
    def track_one(self, hit):
        before = image(hit)
        out = self.inner(hit)
        self.calls.append((before, [image(h) for h in out]))
        return out
class Script:
    """Tracking that gives the next of a list of points, then loses the particle"""
    def __init__(self, points, keys, per_call): self.points, self.keys, self.per_call, self.i = points, keys, per_call, 0
    def __call__(self, hit):
        out = [hit.deepcopy()]
        for p in self.points[self.i:self.i + self.per_call]:
            h = hit.deepcopy()
            for k, v in zip(self.keys, p): h[k] = float(v)
            out.append(h)
        self.i += self.per_call
        return out

RING = [(2, 0), (1, 1), (0, 2), (-1, 1), (-2, 0), (-1, -1), (0, -2), (1, -1)]
STRAY = [(9, 9), (0, 0.5), (-30, 2), (1, 0), (3, -4)]

class C29(mc.Check):
    pid = "C29"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of linear machines, seeds, numbers of points, scans and recorded orbits through the real search, following every tracking call, against the linear recursion of the orbit centre"
    rule = ("machines of 20 pairs of tunes, 3 ellipse shapes and 2 fixed points, seen for 1-4 turns per call; 3 seeds, 3-7 points per fit, one or two planes, 6 iteration limits, the seed used as a point or not; "
            "all sequences of up to 6 ring points with up to 2 strays, 4 cuts; all scans of 1-3 variables with 0-4 steps each, ends on and off the steps; losses after every number of turns")
    assumptions = ["tunes are not resonant with the number of turns in a call", "an ellipse that has shrunk to the precision of the numbers may end the search with an error"]
    def cases(self):
        for mux, muy in itertools.permutations(TUNES, 2):
            for s in range(3):
                for f in range(2):
                    for seed in range(3):
                        for two in (0, 1):
                            yield ["search", mux, muy, s, f, seed, two]
        for n in (3, 4, 5, 6, 7) if self.thorough else (4, 5, 6):
            for first in range(8): yield ["cut", n, first]
        for nv in (1, 2, 3):
            for counts in itertools.product(range(5 if nv < 3 or self.thorough else 4), repeat=nv): yield ["scan", list(counts)]
        for turns in range(4):
            for calls in range(4): yield ["lost", turns, calls]
        yield ["still"]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def seed_hit(self, values):
        h = Hit.new_from_dict({"mass": 938.0, "pid": 2212, "z": 12.5, "spill": 3, "event_number": 4, "local_weight": 0.5, "pz": 90.0})
        for k, v in zip(NAMES, values): h[k] = v
        return h
    def points_of(self, case, calls, keys, number, use_seed, start):
        """The points of one fit, from the tracking calls made for it; the calls are checked on the way."""
        pts, nxt = [], start
        idx = [WATCH.index(k) for k in keys]
        if use_seed: pts.append(start)
        for inp, out in calls:
            mc.need(len(pts) < number, "tracked more than needed", case, len(calls))
            mc.need(inp == nxt, "tracking does not go on from the last hit", case, keys, "in", inp, "last", nxt)
            pts += out[1:]
            nxt = out[-1]
        mc.need(len(pts) >= number, "too few points", case, len(pts), number)
        return [[p[i] for i in idx] for p in pts]
    def statistics(self, case, it, pts, eps, again=True):
        """Centre, ellipse and noise from the points; False where rounding decides"""
        mc.need([list(p) for p in it.points] == pts, "points of the fit", case, it.points, pts)
        scale = max(max(abs(x) for x in p) for p in pts)
        want = fit(pts, [1.0] * len(pts), eps, 10)
        if want is None: return False
        mean, cov = want[0], want[1]
        spread = float(numpy.max(numpy.abs(cov)))
        if spread < 1e-6 * (1 + scale): return False
        for g, w in zip(it.centre, mean): mc.near(g, w, "centre", case, list(it.centre), list(mean), rel=1e-7, abs_=1e-7)
        for g, w in zip(numpy.array(it.ellipse).flatten(), cov.flatten()): mc.near(g, w, "ellipse", case, it.ellipse.tolist(), cov.tolist(), rel=1e-6, abs_=1e-6 * spread)
        det = float(numpy.linalg.det(cov))
        if det < 1e-6 * spread ** len(mean): return True
        inv = numpy.linalg.inv(cov) * det ** (1.0 / len(mean))
        noise = [float((numpy.array(p) - mean) @ inv @ (numpy.array(p) - mean)) for p in pts]
        m = math.fsum(noise) / len(noise)
        sd = math.sqrt(math.fsum((x - m) ** 2 for x in noise) / len(noise))
        mc.near(it.get_mean_noise(), m, "mean noise", case, noise, rel=1e-4, abs_=1e-6 * m)
        mc.near(it.get_sigma_noise() ** 2, sd ** 2, "sigma noise", case, noise, rel=1e-4, abs_=1e-6 * m * m)
        if again: # an iteration calculated for other points before
            other = EllipseClosedOrbitFinderIteration(it.keys, [[3.0 * x + 5.0 * (k % 3) for x in p] for k, p in enumerate(pts)], eps)
            try: other.calculate_ellipse()
            except (ValueError, numpy.linalg.LinAlgError): pass
            other.points = [list(p) for p in pts]
            other.calculate_ellipse()
            self.statistics(case, other, pts, eps, False)
        return True
    def search(self, case, mux, muy, s, f, seed, two):
        m = turn(mux, muy, s)
        orbit = FIXED[f]
        keys = ["x", "px", "y", "py"] if two else ["x", "px"]
        n = len(keys)
        off = numpy.matrix([orbit])
        obs = set()
        k = int(abs(mux) * 8 + abs(muy) * 16) + s + f + seed
        if two and (not any(SEEDS[seed][:2]) or not any(SEEDS[seed][2:])): return None
        for turns in (1, 2, 4) if self.thorough else (1, 4):
            for number in (n + 1, n + 2, n + 5) if self.thorough else (n + 1 + k % 2, n + 5):
                use_seed = bool((k + number + turns) % 3 == 0)
                limit = [1, 2, 3, 12, 40, None][(k + number) % 6]
                tm = [numpy.matrix(numpy.linalg.matrix_power(m, i + 1)) for i in range(turns)]
                tracking = MatrixTracking(tm, [off] * turns, off)
                rec = Recorder(tracking.track_one)
                hit = self.seed_hit([o + d for o, d in zip(orbit, SEEDS[seed] + (0.0, 0.0))])
                if not two:
                    for name, o in zip(NAMES[2:4], orbit[2:4]): hit[name] = o
                before = image(hit)
                finder = EllipseClosedOrbitFinder(rec, hit, use_seed=use_seed)
                # each centre is the previous one moved by the mean of the powers of the map
                used = -(-(number - use_seed) // turns) * turns
                mean_map = sum(numpy.linalg.matrix_power(m, i) for i in range(0 if use_seed else 1, used + 1))[:n, :n] / (used + use_seed)
                x0 = numpy.array(orbit[:n])
                delta = numpy.array([before[WATCH.index(q)] for q in keys]) - x0
                start, done, ended, it = before, 0, "end", None
                gen = finder.find_closed_orbit_generator(list(keys), number, limit)
                while True:
                    rec.calls.clear()
                    try: it = next(gen)
                    except StopIteration: break
                    except (ValueError, RuntimeError) as e:
                        ended = type(e).__name__
                        break
                    done += 1
                    mc.S.add("transitions")
                    mc.need(limit is None or done <= limit, "more iterations than allowed", case, done)
                    mc.need(list(it.keys) == keys, "keys", case, it.keys)
                    pts = self.points_of(case, rec.calls, keys, number, use_seed, start)
                    sound = self.statistics(case, it, pts, 1e6)
                    delta = mean_map @ delta
                    err = float(numpy.max(numpy.abs(delta)))
                    if sound:
                        for g, w in zip(it.centre, x0 + delta): mc.near(g, float(w), "centre of the orbit", case, turns, number, "iteration", done, list(it.centre), rel=1e-6, abs_=1e-6 * (1 + err))
                    delta = numpy.array([float(c) for c in it.centre]) - x0
                    start = list(start)
                    for q, c in zip(keys, it.centre): start[WATCH.index(q)] = float(c)
                    mc.need(image(hit) == before, "seed changed", case, before, image(hit))
                    if done >= 400: break # without a limit the search may go on for ever
                mc.need(it is not None, "no orbit at all", case, ended)
                # a plane that has shrunk to precision ends the search in the other plane too
                err = min(max(abs(float(c) - o) for c, o in list(zip(it.centre, x0))[p:p + 2]) for p in range(0, n, 2))
                if ended != "end" or limit is None or done < limit:
                    # stopped early: the orbit is found
                    mc.need(err < 1e-3, "ended away from the fixed point", case, turns, number, "after", done, ended, list(map(float, it.centre)))
                    obs.add("found")
                else: obs.add("limit")
        return "%s:%d" % (sorted(obs), two)
    def cut(self, case, n, first):
        """Orbits with strays: the fit leaves out what lies beyond the cut."""
        got = set()
        for others in itertools.combinations([i for i in range(8) if i > first], n - 1):
            ring = [RING[first]] + [RING[i] for i in others]
            for strays in [()] + [(a,) for a in range(5)] + ([p for p in itertools.combinations(range(5), 2)] if self.thorough or sum(others) % 3 == 0 else []):
                pts = [tuple(float(v) for v in p) for p in ring + [STRAY[i] for i in strays]]
                eps = [1e6, 4.0, 2.5, 1.0][(sum(others) + sum(strays)) % 4]
                keys = [["x", "px"], ["t", "y"]][first % 2]
                hit = self.seed_hit([50.0, 60.0, 70.0, 80.0, 90.0, 1000.0])
                before = image(hit)
                rec = Recorder(Script(pts, keys, len(pts)))
                finder = EllipseClosedOrbitFinder(rec, hit, eps)
                it = next(finder.find_closed_orbit_generator(list(keys), len(pts))) if fit(pts, [1.0] * len(pts), eps, 10) is not None else None
                if it is not None:
                    self.points_of(case, rec.calls, keys, len(pts), False, before)
                    if self.statistics(case, it, [list(p) for p in pts], eps): got.add(fit(pts, [1.0] * len(pts), eps, 10)[3] - len(pts))
                # the same by check_closed_orbit; keys are sorted there
                rec = Recorder(Script([p for p in pts], keys, len(pts)))
                finder = EllipseClosedOrbitFinder(rec, hit, eps)
                test = {keys[0]: 1.5, keys[1]: -2.5}
                check = finder.check_closed_orbit(dict(test), len(pts))
                mc.S.add("transitions", 2)
                order = sorted(keys)
                mc.need(list(check.keys) == order, "keys", case, check.keys)
                start = list(before)
                for q in keys: start[WATCH.index(q)] = test[q]
                expect = self.points_of(case, rec.calls, order, len(pts), False, start)
                self.statistics(case, check, expect, eps)
                mc.need(check.json_repr() == {"points": expect, "keys": order, "eps_max": eps}, "json", case, check.json_repr())
                mc.need(image(hit) == before, "seed changed", case, before, image(hit))
        return "cut:%s" % sorted(got)
    def scan(self, case, counts):
        """Every point of the grid once, the last variable fastest, ends left out"""
        keys = ["px", "t", "x"][:len(counts)]
        for k, how in enumerate(["on", "off", "just"]):
            start = {q: [-1.0, 2.0, 0.25][i] for i, q in enumerate(keys)}
            step = {q: [0.5, 2.0, 1.0][i] for i, q in enumerate(keys)}
            end = {q: start[q] + step[q] * c - (0 if how == "on" or c == 0 else step[q] * (0.5 if how == "off" else 0.999)) for q, c in zip(keys, counts)}
            args = [dict(reversed(list(d.items()))) for d in (start, end, step)]
            hit = self.seed_hit([50.0, 60.0, 70.0, 80.0, 90.0, 1000.0])
            before = image(hit)
            rec = Recorder(Script([(4.0, 5.0)] * 1000, ["y", "py"], 1 + k))
            grid = [list(p) for p in itertools.product(*[[start[q] + step[q] * j for j in range(c)] for q, c in zip(keys, counts)])]
            got = []
            for it in EllipseClosedOrbitFinder(rec, hit, 7.0).scan_generator(*args):
                got.append(it.points[0])
                mc.S.add("transitions")
                mc.need(list(it.keys) == sorted(keys), "keys of the scan", case, it.keys)
                mc.need(len(got) <= len(grid), "scan goes on beyond the grid", case, how, got[-1], "of", len(grid))
                mc.need([list(p) for p in it.points] == [[h[WATCH.index(q)] for q in sorted(keys)] for h in rec.calls[-1][1]], "points of the scan", case, it.points)
                mc.need(len(rec.calls) == len(got), "tracking calls of the scan", case, len(rec.calls), len(got))
                expect = list(before)
                for q, v in zip(keys, grid[len(got) - 1]): expect[WATCH.index(q)] = v
                mc.need(rec.calls[-1][0] == expect, "start of the scan step", case, how, len(got), rec.calls[-1][0], expect)
            mc.need(got == grid, "points scanned", case, how, got, grid)
            mc.need(image(hit) == before and args == [start, end, step], "arguments of the scan changed", case, args)
        return "scan:%s" % counts
    def lost(self, case, turns, calls):
        """The particle is lost after some turns"""
        total = turns * calls
        for number in range(1, 8):
            for use_seed in (False, True):
                rec = Recorder(Script([(float(i % 3), float(i * i)) for i in range(1, total + 1)], ["x", "px"], turns))
                hit = self.seed_hit([50.0, 60.0, 70.0, 80.0, 90.0, 1000.0])
                finder = EllipseClosedOrbitFinder(rec, hit, use_seed=use_seed)
                for call in (lambda: finder.check_closed_orbit({"x": 50.0, "px": 60.0}, number), lambda: next(finder.find_closed_orbit_generator(["x", "px"], number))):
                    rec.inner.i = 0
                    mc.S.add("transitions")
                    try: call()
                    except RuntimeError: mc.need(total + use_seed < number, "gave up with enough points", case, number, use_seed)
                    except (ValueError, StopIteration): mc.need(total + use_seed >= number, "wrong error for a lost particle", case, number, use_seed)
                    else: mc.need(total + use_seed >= number, "went on without enough points", case, number, use_seed)
        return "lost:%d" % bool(total)
    def still(self, case):
        """A seed on the fixed point gives no ellipse: the caller is told"""
        off = numpy.matrix([FIXED[1]])
        m = turn(1.25, 0.375, 1)
        tracking = MatrixTracking([numpy.matrix(m)], [off], off)
        hit = self.seed_hit(FIXED[1])
        try: next(EllipseClosedOrbitFinder(tracking, hit).find_closed_orbit_generator(["x", "px"], 5))
        except (RuntimeError, ValueError): return "still"
        mc.need(False, "an orbit from a single point", case)

if __name__ == "__main__": mc.main(C29)
