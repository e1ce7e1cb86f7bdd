import cmath, itertools, math
import mc
mc.block_root()
import numpy
from xboa.algorithms.decoupled_transfer_matrix import DecoupledTransferMatrix

# Phases of the planes; all differ, also from 2 pi minus one another.
TUNES = [0.5, 1.25, 2.75, -0.875, -2.0, 3.0]
SHAPES = [(1.0, 0.0), (4.0, 1.5), (0.25, -2.0), (250.0, -0.5)]
ANGLES = [0.0, 0.375, math.pi / 4, math.pi / 2, 2.0, math.pi]
EMIT = [[1.0, 1.0, 1.0, 1.0], [2.0, 0.5, 7.0, 1.5], [0.0, 3.0, 0.125, 4.0]]

def block(mu, beta, alpha):
    c, s, g = math.cos(mu), math.sin(mu), (1 + alpha * alpha) / beta
    return numpy.array([[c + alpha * s, beta * s], [-g * s, c - alpha * s]])
def planes(blocks):
    m = numpy.zeros((2 * len(blocks),) * 2)
    for i, b in enumerate(blocks): m[2 * i:2 * i + 2, 2 * i:2 * i + 2] = b
    return m
def form(n): return planes([numpy.array([[0.0, 1.0], [-1.0, 0.0]])] * n)
# Symplectic couplings of planes i and k.
def rotation(n, i, k, a):
    m = numpy.eye(2 * n)
    for d in (0, 1):
        p, q = 2 * i + d, 2 * k + d
        m[p, p] = m[q, q] = math.cos(a)
        m[p, q], m[q, p] = math.sin(a), -math.sin(a)
    return m
def skew(n, i, k, a):
    """A thin skew quadrupole"""
    m = numpy.eye(2 * n)
    m[2 * i + 1, 2 * k] = m[2 * k + 1, 2 * i] = a
    return m
def solenoid(n, i, k, a):
    """x moves with the momentum of the other plane"""
    m = numpy.eye(2 * n)
    m[2 * i, 2 * k + 1] = m[2 * k, 2 * i + 1] = a
    return m
def dispersion(n, i, k, a):
    """Position and momentum of plane i follow the momentum of plane k"""
    m = numpy.eye(2 * n)
    m[2 * i, 2 * k + 1], m[2 * k, 2 * i + 1] = a, a
    return m @ skew(n, i, k, a / 2)
def mixed(n, i, k, a):
    """Position of one plane into momentum of the other by a rotation of both"""
    m = numpy.eye(2 * n)
    p, q, r, s = 2 * i, 2 * i + 1, 2 * k, 2 * k + 1
    m[p, p] = m[q, q] = m[r, r] = m[s, s] = math.cos(a)
    m[p, s] = m[r, q] = math.sin(a)
    m[s, p] = m[q, r] = -math.sin(a)
    return m
COUPLE = {"rotation": rotation, "skew": skew, "solenoid": solenoid, "dispersion": dispersion, "mixed": mixed}

class C35(mc.Check):
    pid = "C35"
    level = "exhaustive_enumeration"
    technique = "exhaustive enumeration of stable symplectic maps built from known planes and couplings, through the real decomposition, against the planes they were built from"
    rule = ("one to three planes with all orders of distinct tunes out of 6 (either sense of rotation) and ellipse shapes out of 4, coupled by none, one or two of 5 kinds of symplectic transformation "
            "with 6 strengths in every pair of planes; lists, arrays and integer matrices as input; malformed matrices and emittances")
    assumptions = ["the phases of the planes differ; the sense of rotation of a decoupled plane and the order of the planes are not specified for coupled maps"]
    def cases(self):
        for mu in TUNES:
            for s in range(4): yield ["map", [mu], [s], []]
        for mu in itertools.permutations(TUNES, 2):
            for s in itertools.product(range(4), repeat=2):
                yield ["map", list(mu), list(s), []]
                if not self.thorough and (TUNES.index(mu[0]) + TUNES.index(mu[1]) + s[0] + s[1]) % 3: continue
                for kind in sorted(COUPLE):
                    for a in ANGLES[1:]: yield ["map", list(mu), list(s), [[kind, 0, 1, a]]]
        shapes3 = [(0, 0, 0), (0, 1, 2), (3, 0, 1), (2, 3, 3)] if self.thorough else [(0, 0, 0), (3, 0, 1)]
        for mu in itertools.permutations(TUNES, 3):
            for s in shapes3:
                yield ["map", list(mu), list(s), []]
                if not self.thorough and sum(TUNES.index(m) * k for k, m in enumerate(mu)) % 4: continue
                for k1, k2 in itertools.product(sorted(COUPLE), repeat=2):
                    for a in (ANGLES[1:] if self.thorough else (0.375, math.pi / 2)):
                        yield ["map", list(mu), list(s), [[k1, 0, 1, a], [k2, 1, 2, 0.75]]]
                        if k1 == k2: yield ["map", list(mu), list(s), [[k1, 2, 0, a]]]
        for mu in itertools.islice(itertools.permutations(TUNES, 4), 0, None, 1 if self.thorough else 5):
            for s in ((0, 0, 0, 0), (3, 0, 1, 2)):
                yield ["map", list(mu), list(s), []]
                for k1, k2, k3 in ((0, 1, 2), (3, 4, 0), (2, 2, 1)):
                    kinds = sorted(COUPLE)
                    yield ["map", list(mu), list(s), [[kinds[k1], 0, 1, 0.375], [kinds[k2], 1, 2, 0.75], [kinds[k3], 3, 0, 0.5]]]
        yield ["bad"]
    def run_case(self, case): return getattr(self, case[0])(case, *case[1:])
    def map(self, case, mus, shapes, couple):
        n = len(mus)
        m = planes([block(mu, *SHAPES[s]) for mu, s in zip(mus, shapes)])
        c = numpy.eye(2 * n)
        for kind, i, k, a in couple: c = COUPLE[kind](n, i, k, a) @ c
        c_inv = -form(n) @ c.T @ form(n)
        m = c @ m @ c_inv
        given = m.tolist() if len(couple) % 2 == 0 else m.copy()
        d = DecoupledTransferMatrix(given)
        mc.need(numpy.array_equal(numpy.array(given), m), "argument-changed", case)
        size = abs(m).max()
        t, r = numpy.array(d.t), numpy.array(d.r)
        mc.need(t.shape == r.shape == (2 * n, 2 * n) and numpy.isfinite(t).all() and numpy.isfinite(r).all(), "not-finite", case, t)
        scale = abs(t).max() + abs(r).max()
        # block diagonal and real
        mc.need(abs(t.imag).max() <= 1e-7 * scale, "not-real", case, t)
        for i, j in itertools.product(range(2 * n), repeat=2):
            if i // 2 != j // 2: mc.need(abs(t[i, j]) <= 1e-7 * scale, "not-decoupled", case, i, j, t[i, j])
        # M = R T R^-1
        back = r @ t @ numpy.linalg.inv(r)
        mc.need(abs(back - m).max() <= 1e-7 * (size + scale), "not-the-map", case, back)
        # phases
        got = sorted(abs(math.remainder(d.get_phase_advance(i), 2 * math.pi)) for i in range(n))
        want = sorted(abs(math.remainder(mu, 2 * math.pi)) for mu in mus)
        for g, w in zip(got, want): mc.near(g, w, "phase-advance", case, abs_=1e-7)
        for i in range(n):
            b = t[2 * i:2 * i + 2, 2 * i:2 * i + 2].real
            mc.near(b[0, 0] + b[1, 1], 2 * math.cos(d.get_phase_advance(i)), "trace", case, i, abs_=1e-7 * scale)
            mc.near(b[0, 0] * b[1, 1] - b[0, 1] * b[1, 0], 1.0, "determinant", case, i, abs_=1e-7 * scale ** 2)
            beta, alpha, gamma = float(d.get_beta(i)), float(d.get_alpha(i)), float(d.get_gamma(i))
            mc.need(beta > 0 and gamma > 0, "sign-of-beta", case, i, beta, gamma)
            mc.near(beta * gamma - alpha * alpha, 1.0, "beta-gamma-alpha", case, i, abs_=1e-9 * (1 + alpha * alpha))
            # the ellipse of the plane is the one its block preserves
            v = numpy.array([[beta, -alpha], [-alpha, gamma]])
            mc.need(abs(b @ v @ b.T - v).max() <= 1e-7 * abs(v).max() * (1 + abs(b).max()) ** 2, "plane-ellipse", case, i, v)
            if not couple:
                k = min(range(n), key=lambda k: abs(abs(mus[k]) - abs(d.get_phase_advance(i))))
                mc.need(k == i, "plane-order", case, i, d.get_phase_advance(i))
                mc.near(beta, SHAPES[shapes[k]][0], "beta", case, i, rel=1e-7)
                mc.near(alpha, SHAPES[shapes[k]][1], "alpha", case, i, abs_=1e-7)
        # periodic ellipses with the given eigenemittances
        order = sorted(range(n), key=lambda i: abs(d.get_phase_advance(i)))
        true = sorted(range(n), key=lambda i: abs(mus[i]))
        for e in EMIT:
            e = e[:n]
            arg = list(e)
            v = numpy.array(d.get_v_m(arg))
            mc.need(arg == e, "emittances-changed", case)
            mc.need(numpy.isrealobj(v) and v.shape == (2 * n, 2 * n), "ellipse-shape", case)
            big = abs(v).max() * (1 + size) ** 2 + 1e-12
            mc.need(abs(v - v.T).max() <= 1e-8 * big, "ellipse-not-symmetric", case, v)
            mc.need(abs(m @ v @ m.T - v).max() <= 1e-8 * big, "not-periodic", case, e, m @ v @ m.T, v)
            w = numpy.zeros((2 * n, 2 * n))
            for i, k in zip(order, true):
                beta, alpha = SHAPES[shapes[k]]
                w[2 * k:2 * k + 2, 2 * k:2 * k + 2] = e[i] * numpy.array([[beta, -alpha], [-alpha, (1 + alpha ** 2) / beta]])
            w = c @ w @ c.T
            mc.need(abs(v - w).max() <= 1e-7 * (big + abs(w).max()), "ellipse", case, e, v, "want", w)
        # the same question gives the same answer
        mc.need(numpy.array_equal(d.get_v_m(EMIT[1][:n]), d.get_v_m(EMIT[1][:n])), "not-repeatable", case)
        mc.seen(case)
        return [case, [round(g, 6) for g in got]]
    def bad(self, case):
        good = planes([block(0.5, 1.0, 0.0), block(1.0, 2.0, 0.5)])
        for m in (good[:3], good[:, :2], good[:3, :3], numpy.eye(1), numpy.eye(5), 2 * good, good * 1.001, numpy.zeros((4, 4)), numpy.diag([1.0, 1.0, 1.0, -1.0])):
            try: DecoupledTransferMatrix(m)
            except ValueError: continue
            raise mc.Bad("bad-matrix-accepted", str(m))
        d = DecoupledTransferMatrix(good)
        for e in ([], [1.0], [1.0, 2.0, 3.0]):
            try: d.get_v_m(e)
            except ValueError: continue
            raise mc.Bad("bad-emittances-accepted", str(e))
        # a quarter turn given with integers
        d = DecoupledTransferMatrix([[0, 1], [-1, 0]])
        mc.near(abs(d.get_phase_advance(0)), math.pi / 2, "integer-matrix")
        mc.near(float(d.get_beta(0)), 1.0, "integer-matrix")
        return case

if __name__ == "__main__": mc.main(C35)
