import itertools
import mc
mc.block_root()
import numpy
import xboa.common as common

KEYS = [2, 0, 1, -1.5]

class C21(mc.Check):
    pid = "C21"
    level = "model_checking"
    technique = "exhaustive enumeration of parallel lists and grid sizes through the real code"
    rule = ("all tuples of 1..4 parallel lists with every key pattern up to length 6 (thorough 7) over 3..4 keys with ties, the other columns "
            "distinct, tied, unsortable or mixed in type; all grids up to 5 dimensions and 3000 points")
    assumptions = ["lists of equal length"]
    def cases(self):
        for n in range(1, 8 if self.thorough else 7):
            for ks in itertools.product(range(4 if n < 6 else 3), repeat=n):
                for m in range(1, 5): yield ["sort", list(ks), m, 0]
                # an unsortable column next to the keys
                for first in (1, 2): yield ["sort", list(ks), 2 + first % 2, first]
        for n in (12, 40, 150, 600):
            for a in range(1, 5):
                for m in range(1, 5): yield ["sort", [(k * a + k * k // 3) % 4 for k in range(n)], m, 0 if m < 3 else m % 2]
        for d in range(1, 6):
            for n in range(1, 20):
                if n ** d <= 3000: yield ["grid", d, n]
    def run_case(self, case):
        mc.seen(case)
        if case[0] == "grid": return self.grid(case)
        ks, m, first = case[1:]
        keys = [KEYS[k] for k in ks]
        others = [[(10 * i, "a") for i in range(len(ks))], [complex(i % 2, 1) for i in range(len(ks))], ["z" if i % 3 else None for i in range(len(ks))]]
        others = others[first:] + others[:first]
        cols = [list(keys)] + [list(o) for o in others[:m - 1]]
        rows = list(zip(*cols))
        want = sorted(rows, key=lambda r: r[0])
        inner = cols[-1]
        got = common.multisort(cols)
        out = list(zip(*got))
        mc.need(len(got) == m and all(len(c) == len(ks) for c in got), "shape", case, got)
        mc.need([r[0] for r in out] == [r[0] for r in want], "not-sorted", case, got)
        rest = list(rows)
        for r in out:
            mc.need(r in rest, "row-invented", case, r)
            rest.remove(r)
        mc.need(out == want or first == 0 and out == sorted(rows, key=lambda r: r[:2]), "ties-reordered", case, out, want)
        # sorting again changes nothing
        again = common.multisort([list(c) for c in got])
        mc.need(list(zip(*again)) == out, "not-idempotent", case)
        return case
    def grid(self, case):
        d, n = case[1:]
        got = common.make_grid(d, n)
        mc.need(len(got) == n ** d, "number-of-points", case, len(got))
        axis = [-1.0] if n == 1 else [2.0 * j / (n - 1) - 1.0 for j in range(n)]
        want = set(itertools.product([round(a, 9) + 0.0 for a in axis], repeat=d))
        pts = set()
        for v in got:
            a = numpy.array(v).flatten()
            mc.need(len(a) == d, "dimension", case)
            pts.add(tuple(round(float(x), 9) + 0.0 for x in a))
        mc.need(pts == want, "points", case, sorted(pts - want)[:3], sorted(want - pts)[:3])
        ids = set(id(v) for v in got)
        mc.need(len(ids) == len(got), "points-shared", case)
        return case

if __name__ == "__main__":
    mc.main(C21)
