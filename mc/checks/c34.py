import contextlib, io, itertools
import mc
mc.block_root()
import numpy
import xboa.common as common

class C34(mc.Check):
    pid = "C34"
    level = "model_checking"
    technique = "exhaustive enumeration of small systems, starts and limits through the real iteration, with every function call recorded"
    rule = ("all 1x1 and 2x2 integer systems with entries -2..2 and a family of 3x3 systems, roots and starting points on a lattice, 3 step sizes, 4 iteration "
            "limits, both forms of the function call, lists and arrays; quadratic and cubic systems with known roots; singular systems")
    assumptions = ["the limits argument is for future development, as documented, and is not used", "steps are not zero"]
    def cases(self):
        E = (-2, -1, 0, 1, 2)
        for a in E:
            for r in (-3, 0, 2.5):
                for s in (-1, 0, 2.5, 40): yield ["lin", [a], [r], [s]]
        for m in itertools.product(E, repeat=4):
            for r in ((0, 0), (1, -2)):
                for s in ((0, 0), (1, 3), (1, -2), (-50, 0.5)): yield ["lin", list(m), list(r), list(s)]
        T = (1, -2, 3) if self.thorough else (1, -2)
        for d in itertools.product(T, repeat=3):
            for o in itertools.product((0, 1, -1), repeat=6 if self.thorough else 3):
                o = list(o) + [0] * (6 - len(o))
                yield ["lin", [d[0], o[0], o[1], o[3], d[1], o[2], o[4], o[5], d[2]], [1, -2, 0.5], [0, 0, 0]]
        for k in (4, 5, 6, 8):
            for v in range(4):
                m = [[(5.0 + i if i == j else (0, 1, -1, 0.5)[(i * (v + 1) + 3 * j) % 4]) for j in range(k)] for i in range(k)]
                for s in (0, 3): yield ["lin", [x for row in m for x in row], [(1, -2, 0.5, 4, 0, -1, 2, 3)[(i + v) % 8] for i in range(k)], [s * (i % 3) for i in range(k)]]
        for f in range(4):
            for s in itertools.product((0.3, 1, 2, 7), repeat=2): yield ["non", f, list(s)]
    def run_case(self, case):
        mc.seen(case)
        if case[0] == "lin": return self.linear(case)
        return self.nonlinear(case)
    def call(self, case, f, tol, start, delta, n, form):
        """Run; returns (x, points asked, batches). The arguments must not be modified."""
        asked, batches = [], [0]
        def one(x):
            asked.append([float(v) for v in x])
            y = f(x)
            return numpy.array(y) if form == 2 else list(y)
        def many(xs):
            batches[0] += 1
            return [one(x) for x in xs]
        s, d, t = list(start), list(delta), list(tol)
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            if form == 1: x = common.nd_newton_raphson2(many, t, s, d, n, verbose=False)
            else: x = common.nd_newton_raphson1(one, t, s, d, n, verbose=False)
        self.said = said.getvalue().strip()
        mc.need(s == list(start) and d == list(delta) and t == list(tol), "arguments-changed", case, s, d, t)
        mc.need(len(x) == len(start), "dimension", case)
        mc.need(len(asked) <= n * (len(start) + 2), "too-many-iterations", case, n, len(asked))
        if form == 1: mc.need(batches[0] <= 2 * n, "too-many-iterations", case, n, batches)
        mc.S.add("transitions", len(asked))
        return [float(v) for v in x], asked
    def linear(self, case):
        m, r, s = case[1:]
        k = len(r)
        A = numpy.array(m, dtype=float).reshape(k, k)
        f = lambda x: [float(v) for v in A.dot(numpy.array(x, dtype=float) - r)]
        singular = abs(numpy.linalg.det(A)) < 1e-6
        outs = []
        for n in (1, 2, 3, 10):
            for delta in (1.0, 0.5, -0.25):
                for form in (0, 1, 2):
                    if form == 2 and (n, delta) != (10, 1.0): continue
                    x, asked = self.call(case, f, [1e-6] * k, s, [delta] * k, n, form)
                    if singular:
                        mc.need(x == [float(v) for v in s], "moved-without-solution", case, x)
                        mc.need(self.said != "" or n == 0, "failure-not-reported", case)
                    else:
                        res = f(x)
                        for v in res: mc.need(abs(v) <= (1e-6 if form < 2 else 1e-4), "residual", case, n, delta, form, x, res)
                        for v, w in zip(x, r): mc.near(v, w, "root", case, n, delta, form, abs_=1e-6 if form < 2 else 1e-4)
                        if n == 10 and form < 2: mc.need(len(asked) <= 3 * (k + 2), "does-not-stop", case, len(asked))
                    outs.append(x)
        return [case, outs[0]]
    def nonlinear(self, case):
        f = [lambda x: [x[0] ** 2 - 4.0, x[1] ** 2 - 1.0], lambda x: [x[0] ** 3 - 8.0, x[0] + x[1] - 3.0],
             lambda x: [x[0] * x[1] - 2.0, x[0] - 2.0 * x[1] + 3.0], lambda x: [2.0 ** x[0] - 4.0, x[1] ** 2 + x[0] - 3.0]][case[1]]
        out = []
        for tol in (1e-3, 1e-6):
            for n in (1, 2, 5, 60):
                for form in (0, 1):
                    x, asked = self.call(case, f, [tol, tol], case[2], [0.01, 0.01], n, form)
                    if n < 60: continue
                    # it stopped before the limit, so every residual is within tolerance (one Newton step further)
                    used = len(asked) // 4
                    if used < n - 1 and not self.said:
                        for v in f(x): mc.need(abs(v) <= 2 * tol, "stopped-outside-tolerance", case, tol, x, f(x))
                    out.append([round(v, 3) for v in x])
        return [case, out]

if __name__ == "__main__":
    mc.main(C34)
