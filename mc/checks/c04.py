import itertools, math
import mc
mc.block_root()
from xboa.core import WeightContext, Hitcore

IDS = [(0, 0, 0), (1, 2, 3), (1, 3, 2), (2, 1, 3)]
NUMS = [2.0, 0.0, -1.5, 3]
DEFAULTS = [1.0, 0.0, 2.5]
PATTERN = [None, 0.0, 3.0, -2.0]        # None: never written

def div(a, b):
    if b == 0:
        if a == 0 or math.isnan(a): return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b
FN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": div}

class M(object):
    """Model context: a function from identity to weight, plus the value elsewhere."""
    def __init__(self, default, weights): self.default, self.w = default, dict(weights)
    def get(self, i): return self.w.get(i, self.default)
    def at(self, op, other):
        f = FN[op]
        if isinstance(other, M):
            return M(f(self.default, other.default), {i: f(self.get(i), other.get(i)) for i in IDS})
        return M(f(self.default, other), {i: f(self.get(i), other) for i in IDS})
    def rat(self, op, number):
        f = FN[op]
        return M(f(number, self.default), {i: f(number, self.get(i)) for i in IDS})
    def inv(self):
        return M(0.0, {i: (self.default if self.get(i) == 0.0 else 0.0) for i in IDS})

def real(op, a, b):
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    return a / b

def make(default, pat):
    ctx = WeightContext()
    ctx.set_default_weight(default)
    ws = {}
    for i, p in zip(IDS, pat):
        if p is not None:
            ctx.set_weight(p, *i)
            ws[i] = p
    return ctx, M(default, ws)

def unsign(v):
    """x/0 is infinite; its sign depends on the sign of a zero, which no result promises"""
    return math.inf if math.isinf(v) else v

def check(ctx, m, sig, what):
    for i in IDS:
        mc.near(unsign(ctx.get_weight(*i)), unsign(m.get(i)), sig, what, "identity", i, rel=1e-12, abs_=0)
    mc.near(unsign(ctx.get_weight(77, 88, 99)), unsign(m.default), sig + "-default", what, rel=1e-12, abs_=0)
    mc.near(unsign(ctx.get_default_weight()), unsign(m.default), sig + "-default", what, rel=1e-12, abs_=0)

class C04(mc.Check):
    pid = "C04"
    level = "model_checking"
    rule = ("every binary operation on every pair of contexts with each of 3 identities unset/zero/positive/"
            "negative and 3 defaults; every expression tree of depth 2 over 5 contexts and 2 numbers; results and "
            "operands compared identity by identity")
    def cases(self):
        pats = list(itertools.product(PATTERN, repeat=3))
        pats = [p + (1.25,) for p in pats]
        if self.thorough:
            pairs = itertools.product(range(len(pats)), repeat=2)
        else:
            pairs = ((a, b) for a in range(len(pats)) for b in range(len(pats)) if (a + 3 * b) % 4 == 0 or a % 21 == 0)
        for a, b in pairs:
            for da, db in itertools.product(range(3), repeat=2):
                if not self.thorough and (a + b + da) % 3 != db: continue
                yield ["bin", list(pats[a]), DEFAULTS[da], list(pats[b]), DEFAULTS[db]]
        for p in pats:
            for d in DEFAULTS: yield ["un", list(p), d]
        # many identities, of all signs and sizes, some in one context, some in both
        for n in (17, 64, 260, 1030):
            for sa, sb in itertools.product((1, 2, 3, 0), repeat=2):
                for order in (0, 1, 2): yield ["many", n, sa, sb, order]
        leaves = 7
        ops = "+-*/"
        for o1, o2 in itertools.product(ops, repeat=2):
            for l in itertools.product(range(leaves), repeat=3):
                for shape in ("(ab)c", "a(bc)", "~(ab)c", "a~(bc)", "(ab)~c"):
                    yield ["tree", shape, o1, o2, list(l)]
        if self.thorough:
            for o1, o2, o3 in itertools.product(ops, repeat=3):
                for l in itertools.product(range(leaves), repeat=4):
                    yield ["tree3", o1, o2, o3, list(l)]
    def leaves(self):
        return [make(1.0, (None, 2.0, 0.0, -1.0)), make(0.0, (3.0, None, 0.5, 0.0)), make(2.0, (None,) * 4),
                make(-1.0, (0.0, 0.0, None, 4.0)), make(0.0, (None,) * 4), (2.0, 2.0), (0.0, 0.0)]
    def apply(self, op, x, y):
        """x, y are (real, model) pairs; None when the operation is not supported (number on the left)."""
        (rx, mx), (ry, my) = x, y
        if not isinstance(mx, M) and not isinstance(my, M):
            v = FN[op](mx, my)
            return (v, v)
        if isinstance(mx, M): m = mx.at(op, my)
        else: m = my.rat(op, mx)
        try:
            r = real(op, rx, ry)
        except NotImplementedError:
            if not isinstance(mx, M): return None
            raise
        return (r, m)
    def inv(self, x):
        if not isinstance(x[1], M): return x
        return (~x[0], x[1].inv())
    def many(self, case):
        _, n, sa, sb, order = case
        ids = [((k * 7) % 11 - 3, (k * k) % 13 - 4, k - n // 2) for k in range(n)]
        vals = [1e-3, 0.0, -7.0, 1e-9, 1e9, 0.5, -1e-30, 1e-300, 3.0, 1e100]
        out = []
        def build(stride, default, shift):
            c, m = WeightContext(), M(default, {})
            c.set_default_weight(default)
            ks = [k for k in range(n) if stride and k % stride == 0]
            if order == 1: ks.reverse()
            if order == 2: ks = ks[1::2] + ks[::2]
            for k in ks:
                m.w[ids[k]] = vals[(k + shift) % len(vals)]
                c.set_weight(m.w[ids[k]], *ids[k])
            return c, m
        def same(c, f, default, what):
            for i in ids: mc.near(unsign(c.get_weight(*i)), unsign(f(i)), "many", case, what, i, rel=1e-12, abs_=0)
            mc.near(unsign(c.get_default_weight()), unsign(default), "many-default", case, what)
        (a, ma), (b, mb) = build(sa, 2.0, 0), build(sb, 0.5, order)
        for op in "+-*/":
            r = real(op, a, b)
            same(r, lambda i: FN[op](ma.get(i), mb.get(i)), FN[op](2.0, 0.5), op)
            r2 = real(op, a, 2.0)
            same(r2, lambda i: FN[op](ma.get(i), 2.0), FN[op](2.0, 2.0), op + "2")
        n1 = ~a
        same(n1, lambda i: 2.0 if ma.get(i) == 0 else 0.0, 0.0, "~")
        same(a, ma.get, 2.0, "operand")
        same(b, mb.get, 0.5, "operand")
        Hitcore.set_weight_context(a)
        Hitcore.clear_global_weights()
        same(a, lambda i: 2.0, 2.0, "clear")
        Hitcore.set_weight_context(WeightContext())
        mc.S.add("transitions", n)
        mc.seen(case)
        return case
    def run_case(self, case):
        if case[0] == "many": return self.many(case)
        if case[0] == "bin":
            _, pa, da, pb, db = case
            a, b = make(da, pa), make(db, pb)
            out = []
            for op in "+-*/":
                r = self.apply(op, a, b)
                check(r[0], r[1], "op" + op, case)
                for i in IDS: out.append(repr(r[1].get(i)))
                check(a[0], a[1], "left-operand" + op, case)
                check(b[0], b[1], "right-operand" + op, case)
                r[0].set_weight(123.0, *IDS[1])            # the result is a separate object
                check(a[0], a[1], "alias" + op, case)
                check(b[0], b[1], "alias" + op, case)
            same = self.apply("-", a, a)
            check(same[0], same[1], "self-", case)
            mc.seen(out)
            return out
        if case[0] == "un":
            _, pa, da = case
            a = make(da, pa)
            r = self.inv(a)
            check(r[0], r[1], "not", case)
            check(a[0], a[1], "not-operand", case)
            rr = self.inv(r)
            check(rr[0], rr[1], "notnot", case)
            for n in NUMS:
                for op in "+-*/":
                    r = self.apply(op, a, (n, n))
                    check(r[0], r[1], "num" + op, case + [n])
                    r = self.apply(op, (n, n), a)
                    if r is not None: check(r[0], r[1], "rnum" + op, case + [n])
                    check(a[0], a[1], "num-operand" + op, case + [n])
            Hitcore.set_weight_context(a[0])
            Hitcore.clear_global_weights()
            for i in IDS: mc.near(a[0].get_weight(*i), da, "clear", case)
            mc.near(a[0].get_default_weight(), da, "clear-default", case)
            Hitcore.set_weight_context(WeightContext())
            for bad in ("text", None, [1]):
                try:
                    a[0] + bad
                except Exception:
                    pass
                else:
                    raise mc.Bad("bad-operand", "adding %r did not raise" % (bad,))
            return case
        L = self.leaves()
        if case[0] == "tree3":
            _, o1, o2, o3, ls = case
            x = [L[k] for k in ls]
            l = self.apply(o1, x[0], x[1])
            r = self.apply(o3, x[2], x[3])
            if l is None or r is None: return None
            t = self.apply(o2, l, r)
        else:
            _, shape, o1, o2, ls = case
            a, b, c = [L[k] for k in ls]
            t = None
            if shape == "(ab)c":
                u = self.apply(o1, a, b)
                t = u and self.apply(o2, u, c)
            elif shape == "a(bc)":
                u = self.apply(o2, b, c)
                t = u and self.apply(o1, a, u)
            elif shape == "~(ab)c":
                u = self.apply(o1, a, b)
                t = u and self.apply(o2, self.inv(u), c)
            elif shape == "a~(bc)":
                u = self.apply(o2, b, c)
                t = u and self.apply(o1, a, self.inv(u))
            else:
                u = self.apply(o1, a, b)
                t = u and self.apply(o2, u, self.inv(c))
        if t is None or not isinstance(t[1], M): return None
        check(t[0], t[1], "tree", case)
        for k, leaf in enumerate(L[:5]): check(leaf[0], leaf[1], "tree-operand", case)
        out = [repr(t[1].get(i)) for i in IDS] + [repr(t[1].default)]
        mc.seen(out)
        return out

if __name__ == "__main__":
    mc.main(C04)
