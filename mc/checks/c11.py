import itertools, math, operator
import mc, models
mc.block_root()
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from xboa.bunch import Bunch

VALS = [-1.0, 0.0, 2.5]
IDS = [(1, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 1)]
COMP = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "ge": operator.ge, "gt": operator.gt}
LW, GW = [1.0, 0.0, 0.5], [1.0, 0.0, 3.0]
SETV = {"x": lambda v: {"x": v}, "px": lambda v: {"px": v, "pz": 3.0}, "station": lambda v: {"station": int(2 * v)}, "charge": lambda v: {"charge": v},
        "pid": lambda v: {"pid": int(2 * v)}, "r": lambda v: {"x": v, "y": 1.0}, "ct": lambda v: {"t": v}, "p": lambda v: {"px": v, "pz": 2.0},
        "local_weight": lambda v: {}, "weight": lambda v: {}, "global_weight": lambda v: {}, "x'": lambda v: {"px": v, "pz": 2.0},
        "energy": lambda v: {"energy": v}, "event_number": lambda v: {}, "spill": lambda v: {}, "kinetic_energy": lambda v: {"energy": v + 1.0, "mass": 0.5},
        "eventNumber": lambda v: {}}
THRESH = {"x": [-1.0, 0.0, 1.0, 2.5], "weight": [0.0, 0.5, 1.0, 2.0], "local_weight": [0.0, 0.5, 1.0], "global_weight": [0.0, 1.0, 2.0],
          "event_number": [0, 1, 1.5, 2], "eventNumber": [1, 2], "spill": [1, 2, 0], "station": [-2, 0, 1, 5], "pid": [-2, 0, 5],
          "r": [1.0, 1.5, 9.0], "ct": [0.0, 2.5 * models.C_LIGHT, 100.0], "p": [2.0, 2.5, 9.0], "x'": [-0.5, 0.0, 1.25],
          "px": [-1.0, 0.0, 3.0], "charge": [0.0, 2.5], "energy": [-1.0, 1.0, 0.0], "kinetic_energy": [-0.5, 0.5, 1.0]}

class C11(mc.Check):
    pid = "C11"
    level = "model_checking"
    technique = "exhaustive enumeration of bunches, cuts and cut sequences on the real code against a reference model"
    rule = ("all bunches of 1 to 3 hits over value, identity and weight lattices; for each, cuts by every stored real, "
            "integer, derived and weight variable, 6 comparisons, thresholds below, at and above the values, local and "
            "global, by value and by standard deviations; then all sequences of cuts and clears up to a depth")
    def hits(self, spec, var):
        w, b = models.World(), Bunch()
        for k, (v, i, l, g) in enumerate(spec):
            kw = dict(y=float(k) if var not in ("r",) else 0.0, spill=IDS[i][0], event_number=IDS[i][1], particle_number=IDS[i][2], local_weight=LW[l])
            kw.update(SETV[var](VALS[v]))
            hit = Hit.new_from_dict(dict(kw))
            b.append(hit)
            hit["global_weight"] = GW[g]
            d = w.new(**kw)
            w.set(d, "global_weight", GW[g])
        return w, b
    def cases(self):
        one = list(itertools.product(range(3), range(4), range(3), range(3)))
        two = [k for k in one if k[3] != 1 or k[2] == 0]
        few = [(0, 0, 0, 0), (1, 0, 2, 0), (2, 1, 0, 2), (2, 2, 0, 0), (1, 3, 2, 2), (0, 0, 1, 2)]
        specs = [[]] + [[k] for k in one]
        specs += [list(c) for n, c in enumerate(itertools.product(two, repeat=2)) if self.thorough or n % 11 == 0]
        specs += [list(c) for c in itertools.product(few, repeat=3)]
        many = [[[(a * k + k // 3) % 3, (k + k * k // 5) % 4, (k // 4) % 3, 0 if k % a else 2] for k in range(n)] for n, a in ((12, 1), (40, 2), (110, 5))]
        for s in many:
            for var in SETV: yield ["one", var, s]
            for n in (0.5, 1.0, 1.5): yield ["sigma", n, s]
            for seq in itertools.product(range(12), repeat=2): yield ["seq", list(seq), s]
        for n, s in enumerate(specs):
            for m, var in enumerate(SETV):
                if len(s) > 1 and not self.thorough and (n + m) % 3: continue
                yield ["one", var, [list(k) for k in s]]
        ops = range(12)
        base = [[[0, 0, 0, 0], [1, 0, 2, 0], [2, 1, 0, 2], [2, 3, 0, 0]], [[2, 2, 0, 0], [1, 2, 2, 2], [0, 3, 0, 0]]]
        for n in range(1, 5 if self.thorough else 4):
            for seq in itertools.product(ops, repeat=n):
                for k in range(2): yield ["seq", list(seq), base[k]]
        for s in itertools.product(few, repeat=3):
            for n in (0.5, 1.0, 1.5): yield ["sigma", n, [list(k) for k in s]]
    def snapshot(self, w):
        return [(dict(d), w.get(d, "global_weight")) for d in w.hits]
    def model_cut(self, w, var, comp, val, glob):
        hit = [d for d in w.hits if COMP[comp](w.get(d, var), val)]
        for d in hit: w.set(d, "global_weight" if glob else "local_weight", 0.0)
        return len(hit)
    def compare(self, w, b, case, *what):
        mc.need(len(b) == len(w.hits), "hits-removed", case, what)
        for i, d in enumerate(w.hits):
            for v in ("local_weight", "global_weight", "weight", "x", "y", "px", "pz", "t", "energy", "station", "pid", "spill",
                      "event_number", "particle_number", "charge", "mass"):
                mc.need(b[i][v] == w.get(d, v), "after-cut", case, what, "hit", i, v, "got", b[i][v], "want", w.get(d, v))
        mc.near(b.bunch_weight(), sum(w.get(d, "weight") for d in w.hits), "bunch-weight", case, what)
    def restore(self, w, b, snap):
        for i, (d, s) in enumerate(zip(w.hits, snap)):
            for u, v in ((d, w), (b[i], None)):
                if v is None:
                    u["local_weight"] = s[0]["local_weight"]
                    u["global_weight"] = s[1]
                else:
                    u["local_weight"] = s[0]["local_weight"]
                    w.set(d, "global_weight", s[1])
    def run_case(self, case):
        Hitcore.set_weight_context(WeightContext())
        if case[0] == "one":
            var = case[1]
            w, b = self.hits(case[2], var)
            snap = self.snapshot(w)
            out = []
            for t in THRESH[var]:
                for c in COMP:
                    for glob in (False, True):
                        self.restore(w, b, snap)
                        n = self.model_cut(w, var, c, t, glob)
                        arg = {var: t}
                        b.cut(arg, COMP[c], global_cut=glob)
                        mc.need(arg == {var: t}, "argument", case)
                        self.compare(w, b, case, var, c, t, glob)
                        if "weight" not in var:
                            b.cut({var: t}, COMP[c], global_cut=glob)
                            self.compare(w, b, case, "again", var, c, t, glob)
                        out.append(n)
                        mc.S.add("transitions")
            mc.seen(case)
            return [var, out, case[2] if len(case[2]) < 2 else 0] if case[2] else None
        if case[0] == "seq":
            w, b = self.hits(case[2], "x")
            for op in case[1]:
                if op < 6:
                    var, c, t, g = [("x", "gt", 1.0, False), ("x", "lt", 0.0, True), ("y", "ge", 2.0, False), ("spill", "ne", 1, False),
                                    ("event_number", "eq", 1, True), ("weight", "lt", 1.0, True)][op]
                    self.model_cut(w, var, c, t, g)
                    b.cut({var: t}, COMP[c], global_cut=g)
                elif op == 6:      # two variables in one call
                    self.model_cut(w, "x", "ge", 0.0, False)
                    self.model_cut(w, "spill", "ge", 2.0, False)
                    b.cut({"x": 0.0, "spill": 2.0}, operator.ge)
                elif op == 7:
                    for d in w.hits: d["local_weight"] = 1.0
                    b.clear_local_weights()
                elif op == 8:
                    w.weights = {}
                    Bunch.clear_global_weights()
                elif op == 9:
                    for d in w.hits: d["local_weight"] = 1.0
                    w.weights = {}
                    b.clear_weights()
                elif op == 10:     # the cut sees values as they are now
                    w.hits[0]["x"] += 1.5
                    b[0]["x"] = b[0]["x"] + 1.5
                elif op == 11:     # a comparator written by the user
                    seen = []
                    def comp(a, c):
                        seen.append((a, c))
                        return a * a > c
                    for d in w.hits:
                        if d["x"] ** 2 > 1.5: d["local_weight"] = 0.0
                    b.cut({"x": 1.5}, comp)
                    mc.need(sorted(seen) == sorted((d["x"], 1.5) for d in w.hits), "comparator-calls", case, seen)
                self.compare(w, b, case, op)
            mc.seen([w.hits, sorted(w.weights.items())])
            mc.S.add("transitions", len(case[1]))
            return [d["local_weight"] for d in w.hits], [w.get(d, "weight") for d in w.hits], [d["x"] for d in w.hits]
        # thresholds in standard deviations
        n = case[1]
        out = []
        for variables in (["x"], ["y"], ["r"], ["x", "y"], ["y", "x"]):
            for c in ("gt", "le"):
                for glob in (False, True):
                    Hitcore.set_weight_context(WeightContext())
                    w, b = self.hits(case[2], "x")
                    for d, h in zip(w.hits, b.hits()):
                        d["x"] += d["y"] * 0.125
                        h["x"] = d["x"]
                    ok = True
                    arg = {}
                    for v in variables:
                        tot = sum(w.get(d, "weight") for d in w.hits)
                        arg[v] = n
                        if abs(tot) < 1e-9:
                            ok = False
                            break
                        m = sum(w.get(d, "weight") * w.get(d, v) for d in w.hits) / tot
                        var = sum(w.get(d, "weight") * (w.get(d, v) - m) ** 2 for d in w.hits) / tot
                        t = n * max(var, 0.0) ** 0.5
                        if any(abs(w.get(d, v) - t) < 1e-6 for d in w.hits):
                            ok = None          # on the threshold: rounding decides
                            break
                        self.model_cut(w, v, c, t, glob)
                    if ok is None: continue
                    if not ok:
                        try: b.cut(arg, COMP[c], True, glob)
                        except ZeroDivisionError: continue
                        raise mc.Bad("sigma-of-nothing", str(case))
                    b.cut(arg, COMP[c], True, glob)
                    self.compare(w, b, case, variables, c, glob)
                    out.append([w.get(d, "weight") for d in w.hits])
        mc.seen(case)
        return out or None

if __name__ == "__main__":
    mc.main(C11)
