import copy, itertools, math
import mc
import ROOT
ROOT.gROOT.SetBatch(True)
ROOT.gErrorIgnoreLevel = 6000
import numpy
from xboa.algorithms.smoothing import GaussianSmoothing, CutSmoothing, FitSmoothing

VALS = (0.0, 1.0, -2.5, 100.0)

class C27(mc.Check):
    pid = "C27"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of signals and settings through the real smoothing classes, against the defining sums; polynomial fits against normal equations"
    rule = ("all signals of length 0-6 (thorough 7) over 4 values, as list, tuple and integers, for 4 widths, every range to beyond the length and both normalisations; outlier rejection for all "
            "signals of that length with every window and 5 cuts, alone and as columns of tables; all signals of length 4-5 over 3 values fitted with polynomials of degree 0-2")
    assumptions = ["values exactly on an outlier cut may go either way"]
    case_timeout = 120
    def cases(self):
        top = 8 if self.thorough else 7
        for n in range(0, top):
            for head in itertools.product(range(4), repeat=max(0, n - 3)):
                yield ["gauss", n, list(head)]
                yield ["cut", n, list(head)]
        for n in (4, 5):
            for head in itertools.product(range(3), repeat=n - 3): yield ["fit", n, list(head)]
        for n in (30, 80):
            for k in range(6):
                head = [(i * (k + 1) + i // 5 + i * i // 7) % 4 for i in range(n)]
                yield ["gauss", n, head]
                yield ["cut", n, head]
        yield ["errors"]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def gauss(self, case, n, head):
        obs = []
        tails = list(itertools.product(range(4), repeat=n - len(head)))
        for sigma in (0.1, 0.7, 3.0, 1e4):
            for r in range(0, n + 3):
                for adjust in (True, False):
                    g = GaussianSmoothing(sigma, r, adjust)
                    w = [math.exp(-d * d / (2.0 * sigma * sigma)) for d in range(r + 1)]
                    full = w[0] + 2 * sum(w[1:])
                    rows = []
                    for i in range(n):
                        row = [w[abs(i - j)] if abs(i - j) <= r else 0.0 for j in range(n)]
                        norm = sum(row) if adjust else full
                        rows.append([x / norm for x in row])
                    for tail in tails:
                        data = [VALS[k] for k in list(head) + list(tail)]
                        form = (tail[0] + tail[-1]) % 3 if tail else 0
                        arg = data if form == 0 else tuple(data) if form == 1 else numpy.array(data)
                        got = g.smooth(arg)
                        mc.need(len(got) == n, "length", case, data, len(got))
                        for i in range(n):
                            want = sum(a * b for a, b in zip(rows[i], data))
                            mc.need(abs(got[i] - want) <= 1e-12 * max([abs(x) for x in data]), "value", case, data, sigma, r, adjust, i, got[i], want)
                        mc.need(list(arg) == data, "input-changed", case, data)
                        again = g.smooth(arg)
                        mc.need(list(again) == list(got), "again", case, data)
                        mc.S.add("transitions")
                        obs.append([round(float(x), 9) for x in got])
        for t in tails: mc.seen([n, head, t])
        return [n, mc.h(obs)] if n else None
    def rejected(self, data, cut, step):
        """Per window of `step`, those further than cut from its mean; the remainder with the mean of the last `step`."""
        n = len(data)
        out = []
        for i in range(n):
            w = i // step
            win = data[w * step:(w + 1) * step] if (w + 1) * step <= n else data[max(0, n - step):n]
            d = abs(data[i] - sum(win) / len(win))
            out.append(None if abs(d - cut) < 1e-9 else d > cut)
        return out
    def cut(self, case, n, head):
        obs = []
        for tail in itertools.product(range(4), repeat=n - len(head)):
            data = [VALS[k] for k in list(head) + list(tail)]
            for step in range(1, n + 3):
                for cut in (0.1, 1.1, 1.7, 30.3, 1e3):
                    c = CutSmoothing(cut, step)
                    bad = self.rejected(data, cut, step)
                    if None in bad: continue
                    want = [x for x, b in zip(data, bad) if not b]
                    keep = list(data)
                    got = c.smooth(data) if n else c.smooth([])
                    mc.need(list(got) == want, "rejection", case, data, cut, step, got, want)
                    mc.need(data == keep, "input-changed", case, data)
                    mc.S.add("transitions")
                    if n and cut != 1.7:
                        other, text = list(range(n)), ["r%d" % i for i in range(n)]
                        for table, col in (([data, other], 0), ([other, data, text], 1), ((text, other, data), 2)):
                            shot = copy.deepcopy(table)
                            out = c.smooth_table(table, col)
                            mc.need(type(out) is type(table) and len(out) == len(table), "table-shape", case, type(out))
                            for a, b in zip(out, table): mc.need(list(a) == [x for x, z in zip(b, bad) if not z], "table-row", case, data, cut, step, out)
                            mc.need(table == shot, "table-changed", case)
                    obs.append(len(got))
        return [n, mc.h(obs)] if n else None
    def fit(self, case, n, head):
        obs = []
        for tail in itertools.product(range(3), repeat=3):
            data = [VALS[k] for k in list(head) + list(tail)]
            for deg in (0, 1, 2):
                f = ROOT.TF1("fit", ["[0]", "[0]+[1]*x", "[0]+[1]*x+[2]*x*x"][deg], 0, n)
                for p in range(deg + 1): f.SetParameter(p, 1.0)
                keep = list(data)
                got = FitSmoothing(f).smooth(data)
                want = numpy.polyval(numpy.polyfit(range(n), data, deg), range(n))
                mc.need(len(got) == n and max(abs(a - b) for a, b in zip(got, want)) < 1e-2, "fit", case, data, deg, got, list(want))
                mc.need(data == keep, "input-changed", case)
                obs.append([round(float(w), 6) for w in want])
                mc.S.add("transitions")
        mc.seen(case)
        return mc.h(obs)
    def errors(self, case):
        for table, col in (([[1.0, 2.0], [1.0]], 0), ([[1.0], [1.0, 2.0]], 0), ([[1.0, 2.0], [1.0]], 1), ([[], [1.0]], 0)):
            try: CutSmoothing(1.0, 1).smooth_table(table, col)
            except IndexError: continue
            mc.need(False, "unequal-columns", case, table)
        return "errors"

if __name__ == "__main__": mc.main(C27)
