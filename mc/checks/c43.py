import bisect, itertools, math
import mc
import xboa.common as common

VALUES = [-1.5, 0.0, 0.25, 3e5]
def distance(a, b):
    a, b = sorted(a), sorted(b)
    return max(abs(bisect.bisect_right(a, x) / len(a) - bisect.bisect_right(b, x) / len(b)) for x in a + b)
def prob(z):
    """Kolmogorov's distribution, by whichever of its two series converges faster"""
    if z < 0.2: return 1.0
    if z < 0.8: return 1 - math.sqrt(2 * math.pi) / z * sum(math.exp(-(2 * j - 1) ** 2 * math.pi ** 2 / (8 * z * z)) for j in range(1, 8))
    return 2 * sum((-1) ** (j - 1) * math.exp(-2 * j * j * z * z) for j in range(1, 12))

class C43(mc.Check):
    pid = "C43"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of pairs of short samples in every order, against the definition of the Kolmogorov-Smirnov probability"
    rule = ("all pairs of samples of 3 and 4 entries (thorough: 3-5) out of 4 values with repeats, every order of one and three orders of the other, as lists, tuples and integers; pairs of ramps of 3-40 entries with 8 offsets, scales and signs")
    assumptions = ["samples have at least 3 entries (ROOT refuses smaller ones)"]
    def cases(self):
        sizes = (3, 4, 5) if self.thorough else (3, 4)
        for n, m in itertools.product(sizes, repeat=2):
            for a in itertools.combinations_with_replacement(range(4), n): yield ["small", list(a), m]
        for n in range(3, 41): yield ["ramp", n]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def one(self, case, a, b):
        before = (list(a), list(b))
        p = common.kolmogorov_smirnov_test(a, b)
        mc.need((list(a), list(b)) == before, "samples changed", case, a, b)
        z = distance(a, b) * math.sqrt(len(a) * len(b) / (len(a) + len(b)))
        mc.near(p, prob(z), "probability", case, a, b, "z", z, rel=1e-7, abs_=1e-9)
        mc.need(0 <= p <= 1, "probability out of range", case, a, b, p)
        mc.S.add("transitions")
        return p
    def small(self, case, ia, m):
        a = [VALUES[i] for i in ia]
        obs = set()
        for ib in itertools.combinations_with_replacement(range(4), m):
            b = [VALUES[i] for i in ib]
            ps = {self.one(case, list(x), y) for x in set(itertools.permutations(a)) for y in (b[::-1],)}
            ps |= {self.one(case, a, b), self.one(case, tuple(b), a[::-1]), self.one(case, b[1:] + b[:1], tuple(a))}
            mc.need(max(ps) - min(ps) < 1e-9, "probability depends on the order", case, a, b, ps)
            obs.add(round(ps.pop(), 6))
        return "small:%s" % sorted(obs)
    def ramp(self, case, n):
        obs = set()
        for m in range(3, 41, 4):
            for off in (0, 1, 3, -2):
                for scale in (1, -3):
                    a, b = [i * i % 17 for i in range(n)], [off + scale * (i * 7 % 23) for i in range(m)]
                    obs.add(round(self.one(case, a, b), 3))
                    self.one(case, [x * 1e-6 for x in a], [x * 1e-6 for x in b])
        return "ramp:%d" % len(obs)

if __name__ == "__main__": mc.main(C43)
